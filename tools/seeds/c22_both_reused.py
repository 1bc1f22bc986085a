ID='c22_both_reused'
PROP='C22'
EDITS=[('vanillaplusjs/build/handlers/copy_and_hash.py','    hash_result = vanillaplusjs.build.handlers.hash.build_file(context, relpath)\n','    if copy_result.reused:\n        reused = vanillaplusjs.build.handlers.hash.scan_file(context, relpath).produces\n        hash_result = BuildFileResult(children=[], produced=[], reused=reused)\n    else:\n        hash_result = vanillaplusjs.build.handlers.hash.build_file(context, relpath)\n')]
DEMO='''
import os, tempfile
from vanillaplusjs.build.build_context import BuildContext
import vanillaplusjs.build.handlers.copy_and_hash as h
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, "src", "public"))
    with open(os.path.join(d, "src", "public", "a.txt"), "w") as f:
        f.write("x")
    ctx = BuildContext(folder=d, dev=False, symlinks=False)
    h.build_file(ctx, os.path.join("src", "public", "a.txt"))
    hp = os.path.join(d, "out", "www", "a.txt.hash")
    assert os.path.exists(hp)
    os.unlink(hp)
    r = h.build_file(ctx, os.path.join("src", "public", "a.txt"))
    assert os.path.exists(hp), "no hash was written"
'''
NEEDS='a build in which the copy is still there but its hash is not'
BREAKS='the hash is reported as reused but never written'
