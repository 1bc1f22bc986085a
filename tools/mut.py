import sys,os,shutil,subprocess,json
# mut.py contractmodule relfile  < mutations as "old ==> new" blocks separated by ----
modn, rel = sys.argv[1:3]; names=sys.argv[3:]
blocks=[b for b in sys.stdin.read().split('----\n') if b.strip()]
from concurrent.futures import ThreadPoolExecutor
def one(ib):
    i,b=ib
    old,new=b.rstrip('\n').split('\n==>\n') if '\n==>\n' in b else (b.rstrip('\n').split('\n==>')[0],'')
    d=f'/tmp/mut/{os.getpid()}_{i}'
    shutil.copytree('/repo/vanillaplusjs', d+'/vanillaplusjs')
    p=f'{d}/{rel}'
    s=open(p).read()
    if s.count(old)<1: return f'#{i} NOT FOUND {old!r}'
    s=s.replace(old,new,1); open(p,'w').write(s)
    r=subprocess.run(['python3-vt','tools/t.py',modn]+names,capture_output=True,text=True,env={**os.environ,'VERIF_REPO':d})
    shutil.rmtree(d)
    lines=[l for l in r.stdout.splitlines() if 'loop' not in l and not l.startswith('OK')]
    return f'#{i} {old.strip()[:50]!r} -> {new.strip()[:50]!r}: '+('CAUGHT ' if any(l.startswith('FAIL') for l in lines) else 'missed ')+' | '.join(x.strip()[:110] for x in lines[:4])+r.stderr[-200:]
with ThreadPoolExecutor(4) as ex:
    for x in ex.map(one, enumerate(blocks)): print(x, flush=True)
