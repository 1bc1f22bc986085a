import sys
import os
sys.path[:0]=[os.environ.get('VERIF_REPO','/repo'),'/opt/venv/lib/python3.12/site-packages','/verif']
import importlib
from vc.contracts import verify
modn, *names = sys.argv[1:]
m = importlib.import_module('contracts.'+modn)
seen=[]
for k,cs in m.CONTRACTS.items():
    for c in cs:
        if c in seen or (names and c.label() not in names and c.__name__ not in names): continue
        seen.append(c)
        r=verify(c)
        print(('OK  ' if r.ok else 'FAIL'), r.name, 'paths',r.paths,'obl',len(r.obligations),'secs',r.secs, 'UNSUP '+r.unsupported if r.unsupported else '', r.error or '')
        if r.unsupported or r.error: print('\n'.join(getattr(r,'trace',[])))
        for l in r.loops: print('   loop',l['where'],l['line'],l['invariants'] if len(names)else len(l['invariants']))
        for o in r.failed[:12]:
            print('  ',o['status'],o['name'],o['where'],o.get('reason'),o['secs'])
            if len(names): print('     goal',o.get('goal','')[:600])
        sys.stdout.flush()
