import sys
sys.path[:0]=['/repo','/opt/venv/lib/python3.12/site-packages','/verif']
import time, importlib
from vc.contracts import verify
from vc.engine import Engine as En
orig=En.sym_loop
t0=time.time()
depth=[0]
def sl(self,st,node,fr,it):
    t=time.time(); depth[0]+=1
    print(' '*depth[0],'loop',node.lineno,'pc',len(st.pc),round(t-t0,1),'discover',self.discover,'silent',self.silent,flush=True)
    r=orig(self,st,node,fr,it)
    print(' '*depth[0],'done',node.lineno,round(time.time()-t,1),'outs',len(r),flush=True); depth[0]-=1
    return r
En.sym_loop=sl
m=importlib.import_module('contracts.'+sys.argv[1])
for k,cs in m.CONTRACTS.items():
    for c in cs:
        if sys.argv[2] in (c.label(),c.__name__):
            r=verify(c); print(r.ok,r.secs,r.unsupported,r.error,r.paths,len(r.obligations)); [print(o['status'],o['name'],o['where']) for o in r.failed[:9]]
