ID='c18_shared_shadow'
PROP='C18'
EDITS=[('vanillaplusjs/build/handlers/js_constants.py','            constants.update(context.js_constants.prod)\n','            for key, value in context.js_constants.prod.items():\n                if value or key not in constants:\n                    constants[key] = value\n')]
DEMO='''
import os, tempfile
from vanillaplusjs.build.build_context import BuildContext, JSConstants
import vanillaplusjs.build.handlers.js_constants as h
with tempfile.TemporaryDirectory() as d:
    rel = os.path.join("src", "public", "c.js")
    ctx = BuildContext(folder=d, dev=False, symlinks=False, js_constants=JSConstants(rel, {"DEBUG": True, "A": 1}, {}, {"DEBUG": False, "B": 0}))
    h.build_file(ctx, rel)
    with open(os.path.join(d, "out", "www", "c.js")) as f:
        got = f.read()
    assert "export const DEBUG = false;" in got, got
'''
NEEDS='a production constant that is false, zero or empty and overrides a shared one'
BREAKS='the shared value is exported instead'
