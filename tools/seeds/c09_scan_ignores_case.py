ID='c09_scan_ignores_case'
PROP='C09'
EDITS=[('vanillaplusjs/build/scan_file.py', '    if relpath.endswith(".html"):', '    if relpath.lower().endswith(".html"):')]
DEMO=r'''
import os, tempfile
from vanillaplusjs.build.build_context import BuildContext
from vanillaplusjs.build.scan_file import scan_file
from vanillaplusjs.build.build_file import build_file
from vanillaplusjs.build.build_context import JSConstants
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, "src", "public"))
    os.makedirs(os.path.join(d, "out", "www"))
    with open(os.path.join(d, "src", "public", "A.HTML"), "w") as f:
        f.write("x")
    c = BuildContext(folder=d, dev=False, symlinks=False, delay_files=set(), js_constants=JSConstants("x.js", {}, {}, {}))
    p = os.path.join("src", "public", "A.HTML")
    s, r = scan_file(c, p), build_file(c, p)
    assert set(s.produces) == set(r.produced) | set(r.reused), (s, r)
'''
NEEDS='a file whose extension is .HTML'
BREAKS='the scan announces none of what the build then produces'
