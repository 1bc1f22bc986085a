ID='c08_alias_then_name'
PROP='C08'
EDITS=[('vanillaplusjs/build/js/manips/hash_imports.py','                    if token["type"] == JSTokenType.comma:\n                        token = yield from self._skip_types(WHITESPACE_OR_TERM)\n                else:','                    elif token["type"] == JSTokenType.comma:\n                        token = yield from self._skip_types(WHITESPACE_OR_TERM)\n                else:')]
DEMO='''
import os, tempfile
from vanillaplusjs.build.build_context import BuildContext, JSConstants
from vanillaplusjs.build.scan_file import scan_file
rel = os.path.join("src", "public", "m.js")
for text in ("import { a, b as c } from '/n.js';", "import { b as c, d } from '/n.js';"):
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(os.path.join(d, "src", "public"))
        with open(os.path.join(d, rel), "w") as f:
            f.write(text + "\\n")
        r = scan_file(BuildContext(folder=d, dev=False, symlinks=False, js_constants=JSConstants("x.js", {}, {}, {})), rel)
        assert r.dependencies == [os.path.join("src", "public", "n.js")], (text, r)
'''
NEEDS='an import declaration in which a renamed name is followed by another one'
BREAKS='such an import gets no version and no dependency'
