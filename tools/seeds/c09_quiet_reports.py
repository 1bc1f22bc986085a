ID='c09_quiet_reports'
PROP='C09'
EDITS=[('vanillaplusjs/build/handlers/css.py', '    for build_result in sub_build_results:\n', '    for build_result in sub_build_results:\n        if not (build_result.produced or build_result.reused):\n            continue\n')]
DEMO=r'''
import os, tempfile
from vanillaplusjs.build.build_context import BuildContext, JSConstants
from vanillaplusjs.build.scan_file import scan_file
from vanillaplusjs.build.build_file import build_file
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, "src", "public"))
    os.makedirs(os.path.join(d, "out", "www"))
    c = BuildContext(folder=d, dev=False, symlinks=False, delay_files=set(), js_constants=JSConstants("x.js", {}, {}, {}))
    for n, t in (("i.txt", "x"), ("a.css", ".a { background: url(\"/i.txt\"); }\n")):
        with open(os.path.join(d, "src", "public", n), "w") as f:
            f.write(t)
    q, p = os.path.join("src", "public", "i.txt"), os.path.join("src", "public", "a.css")
    build_file(c, q)
    s, r = scan_file(c, p), build_file(c, p)
    assert set(s.dependencies) == set(r.children), (s, r)
'''
NEEDS='a style that refers to a file, which alone changes later'
BREAKS='the build reports no child, so that the page keeps the old version'
