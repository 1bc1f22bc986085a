"""ed.py FILE < 'old\n==>\nnew\n----\n...' : exact replacement preserving CRLF."""
import sys
p = sys.argv[1]
b = open(p, "rb").read().decode()
crlf = "\r\n" in b
s = b.replace("\r\n", "\n")
for blk in [x for x in sys.stdin.read().split("\n----\n") if x.strip()]:
    old, new = blk.split("\n==>\n") if "\n==>\n" in blk else (blk.split("\n==>")[0], "")
    old = old.strip("\n"); new = new.rstrip("\n")
    assert s.count(old) == 1, (s.count(old), old)
    s = s.replace(old, new)
open(p, "wb").write((s.replace("\n", "\r\n") if crlf else s).encode())
