"""mutc.py PROP[,PROP] REL [nproc] < mutations ("old\n==>\nnew" blocks split by ----): runs the full check on each."""
import sys,os,shutil,subprocess
props, rel = sys.argv[1].split(','), sys.argv[2]
blocks=[b for b in sys.stdin.read().split('----\n') if b.strip()]
for i,b in enumerate(blocks):
    old,new=b.rstrip('\n').split('\n==>\n') if '\n==>\n' in b else (b.rstrip('\n').split('\n==>')[0],'')
    d=f'/tmp/mutc/{os.getpid()}_{i}'
    shutil.copytree('/repo/vanillaplusjs', d+'/vanillaplusjs')
    p=f'{d}/{rel}'
    raw=open(p,newline='').read()
    crlf='\r\n' in raw
    s=raw.replace('\r\n','\n')
    if s.count(old)<1:
        print(f'#{i} NOT FOUND {old!r}'); shutil.rmtree(d); continue
    s=s.replace(old,new,1)
    open(p,'w',newline='').write(s.replace('\n','\r\n') if crlf else s)
    for prop in props:
        r=subprocess.run(['python3-vt','check.py',prop],capture_output=True,text=True,env={**os.environ,'VERIF_REPO':d,'VERIF_OUT':d,'VERIF_RT':os.environ.get('VERIF_RT','5')})
        out=r.stdout.strip().splitlines()
        v=[l for l in out if l.startswith('VIOLATION')]
        und=[l for l in out if 'undecided' in l]
        print(f'#{i} {prop} {old.strip()[:40]!r}->{new.strip()[:40]!r} rc={r.returncode}', 'CAUGHT' if v else 'MISSED', 'no-input' if v and 'no-failing' in v[0] else '', (out[0] if v else ' | '.join(und))[:230], r.stderr[-300:], flush=True)
    shutil.rmtree(d)
