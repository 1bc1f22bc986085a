import sys
sys.path[:0]=['/repo','/opt/venv/lib/python3.12/site-packages','/verif']
from vc import solver
orig=solver.prove
def p(ax,pc,goal,**k):
    v=orig(ax,pc,goal,**k)
    import inspect
    fr=inspect.currentframe().f_back
    n=fr.f_locals.get('n')
    print('   prove',v.status,round(v.secs,2),n if isinstance(n,str) else '')
    return v
solver.prove=p
import importlib
from vc.contracts import verify
m = importlib.import_module('contracts.'+sys.argv[1])
for k,cs in m.CONTRACTS.items():
    for c in cs:
        if c.label()==sys.argv[2]:
            import vc.contracts
            r=verify(c); print(r.loops)
            for o in r.obligations: print(o['status'],o['name'],o['secs'],o['backend'])
            break
