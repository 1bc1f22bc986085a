import sys
sys.path[:0]=['/repo','/opt/venv/lib/python3.12/site-packages','/verif']
from vc import solver
import z3, time, re, os
orig=solver.prove
os.makedirs('/tmp/q',exist_ok=True)
import vc.contracts as vcc
def p(ax,pc,goal,**k):
    import inspect
    v=orig(ax,pc,goal,**{**k,'quick':True,'use_cvc5':False})
    o=inspect.currentframe().f_back.f_locals.get('o')
    nn=inspect.currentframe().f_back.f_locals.get('n')
    if v.status!='proved' and isinstance(nn,str) and k.get('use_cvc5') is not None:
        class o: name=nn
    if v.status!='proved' and o is not None:
        fn='/tmp/q/'+re.sub('[^A-Za-z0-9]+','_',o.name)[:80]+'.smt2'
        s=z3.Solver()
        for a in list(ax)+list(pc): s.add(a)
        s.add(z3.Not(goal))
        open(fn,'w').write(s.to_smt2())
    return v
solver.prove=p
import importlib
m = importlib.import_module('contracts.'+sys.argv[1])
for k,cs in m.CONTRACTS.items():
    for c in cs:
        if c.label()==sys.argv[2]:
            r=vcc.verify(c); print(r.ok,r.secs)
            for o in r.failed: print(o['name'])
            for l in r.loops: print(l)
            break
