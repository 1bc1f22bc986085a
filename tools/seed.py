"""seed.py FILE: plants the bug described in FILE (python: ID, PROP, EDITS=[(rel, old, new)],
DEMO, NEEDS, BREAKS) as /verif/seeded/ID after confirming it in a scratch copy."""
import os, sys, shutil, subprocess, json, runpy
S = runpy.run_path(sys.argv[1])
ID = S["ID"]
d = f"/tmp/seed_{ID}"
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
r = d + "/repo"
out = f"/verif/seeded/{ID}"
os.makedirs(out, exist_ok=True)
with open(out + "/demo.py", "w") as f:
    f.write(S["DEMO"].lstrip("\n"))
with open(out + "/demo.sh", "w") as f:
    f.write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1\nhere="$(cd "$(dirname "$0")" && pwd)"\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nPYTHONPATH="$PWD" exec "$PY" "$here/demo.py"\n')
def demo():
    return subprocess.run(["bash", out + "/demo.sh"], cwd=r, capture_output=True, text=True, timeout=300)
a = demo()
print("demo unchanged:", a.returncode, a.stdout[-300:], a.stderr[-600:])
for rel, old, new in S["EDITS"]:
    p = f"{r}/{rel}"
    raw = open(p, newline="").read()
    crlf = "\r\n" in raw
    s = raw.replace("\r\n", "\n")
    assert s.count(old) >= 1, (rel, old, s.count(old))
    s = s.replace(old, new, 1)
    open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
b = demo()
print("demo patched:", b.returncode, b.stdout[-500:], b.stderr[-300:])
diff = subprocess.run(["git", "diff", "--binary"], cwd=r, capture_output=True).stdout
open(out + "/patch.diff", "wb").write(diff)
t = subprocess.run(["bash","-c","PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3; $PY -m pytest -q -p no:cacheprovider --ignore=tests/test_build_feat_external_files.py tests"] if "NOTEST" not in S else ["true"], cwd=r, capture_output=True, text=True, env={**os.environ, "PYTHONPATH": r})
print("tests:", t.returncode, (t.stderr or t.stdout)[-200:])
json.dump({"property": S["PROP"], "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
print("OK" if ok else "REJECTED", ID)
if not ok:
    shutil.rmtree(out)
elif "--check" in sys.argv:
    c = subprocess.run(["python3-vt", "check.py", S["PROP"]], cwd="/verif", capture_output=True, text=True, env={**os.environ, "VERIF_REPO": r, "VERIF_OUT": d})
    print("check rc", c.returncode, "\n".join(c.stdout.strip().splitlines()[-4:])[:1200], c.stderr[-300:])
shutil.rmtree(d)
