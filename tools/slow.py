"""python3-vt tools/slow.py MODULE Contract: obligations that take long, per back end"""
import sys,os
sys.path[:0]=[os.environ.get('VERIF_REPO','/repo'),'/opt/venv/lib/python3.12/site-packages','/verif']
import importlib
from vc.contracts import verify1
m=importlib.import_module('contracts.'+sys.argv[1])
for cs in m.CONTRACTS.values():
    for c in cs:
        if c.__name__==sys.argv[2]:
            for eff in (0,1):
                r=verify1(c,eff); print(eff,r.ok,r.secs,r.unsupported,r.error)
                for o in sorted(r.obligations,key=lambda o:-o['secs'])[:14]: print(o['secs'],o['status'],o['backend'],o['name'])
                if r.ok: break
