ID='c08_same_tail'
PROP='C08'
EDITS=[('vanillaplusjs/build/css/manips/version_urls.py','        if path_relative_to_root == self.relpath:\n','        if self.relpath.endswith(os.path.sep + path_relative_to_public):\n')]
DEMO='''
import os, tempfile
from vanillaplusjs.build.build_context import BuildContext, JSConstants
from vanillaplusjs.build.scan_file import scan_file
with tempfile.TemporaryDirectory() as d:
    for rel, target, want in ((("theme", "main.css"), "/main.css", 1), (("main.css",), "/main.css", 0), (("a.css",), "/main.css", 1)):
        rel = os.path.join("src", "public", *rel)
        os.makedirs(os.path.dirname(os.path.join(d, rel)), exist_ok=True)
        with open(os.path.join(d, rel), "w") as f:
            f.write('.a { background: url("' + target + '"); }\\n')
        r = scan_file(BuildContext(folder=d, dev=False, symlinks=False, js_constants=JSConstants("x.js", {}, {}, {})), rel)
        assert len(r.dependencies) == want, (rel, r)
'''
NEEDS='a style in a folder that refers to the file of the same name further up'
BREAKS='the reference is taken for one of the style to itself and gets no version'
