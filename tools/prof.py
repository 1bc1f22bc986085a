import sys
sys.path[:0]=['/repo','/opt/venv/lib/python3.12/site-packages','/verif']
from vc import solver
import time, collections, inspect
T=collections.defaultdict(lambda:[0,0.0])
def wrap(n):
    o=getattr(solver,n)
    def f(*a,**k):
        t=time.time(); r=o(*a,**k); dt=time.time()-t
        fr=inspect.currentframe().f_back
        key=(n,fr.f_code.co_name,fr.f_lineno,getattr(r,'status',r[0] if isinstance(r,tuple) else r))
        T[key][0]+=1; T[key][1]+=dt
        return r
    setattr(solver,n,f)
wrap('_cvc5'); wrap('_prove'); wrap('prove'); wrap('feasible')
import importlib
from vc.contracts import verify
m = importlib.import_module('contracts.'+sys.argv[1])
for k,cs in m.CONTRACTS.items():
    for c in cs:
        if c.label()==sys.argv[2]:
            r=verify(c); print(r.ok, r.secs, r.unsupported,r.error)
            for l in r.loops: print(l)
            for o in r.failed: print(o['status'],o['name'],o['secs'],o['backend'])
            break
for k,v in sorted(T.items(),key=lambda x:-x[1][1]): print(k,v)
