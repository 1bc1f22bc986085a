ID='c20_mentioned'
PROP='C20'
EDITS=[('vanillaplusjs/build/js/manips/type_hints.py','                and token["value"].strip() == "@@type-hint"\n','                and token["value"].strip().splitlines()[-1:] == ["@@type-hint"]\n')]
DEMO='''
import os, tempfile
from types import SimpleNamespace
from vanillaplusjs.build.js.manipulate_and_serialize import manipulate_and_serialize
from vanillaplusjs.build.js.manips.type_hints import TypeHintsManipulator
with tempfile.TemporaryDirectory() as d:
    a, b = os.path.join(d, "a.js"), os.path.join(d, "b.js")
    with open(a, "w") as f:
        f.write('run(); /* lines below are marked\\n@@type-hint */\\nf(); //@@type-hint\\n')
    m = TypeHintsManipulator(SimpleNamespace(), "src/public/a.js", "build")
    manipulate_and_serialize(a, b, [m])
    with open(b) as f:
        got = f.read()
    assert got.startswith("run();"), got
'''
NEEDS='a comment of several lines whose last line is the marker'
BREAKS='the code beside that comment is commented out'
