ID='c22_nested_public'
PROP='C22'
EDITS=[('vanillaplusjs/build/handlers/hash.py','        if relpath.startswith(parent):\n            relative_to_parent = relpath[len(parent) :]\n','        if parent in relpath:\n            relative_to_parent = relpath.split(parent)[-1]\n')]
DEMO='''
import os, tempfile
from types import SimpleNamespace
import vanillaplusjs.build.handlers.hash as h
ctx = SimpleNamespace(folder=".", symlinks=False)
assert h.get_target_path(ctx, "src/public/a.txt") == os.path.join("out", "www", "a.txt.hash")
got = h.get_target_path(ctx, "src/public/demo/src/public/a.txt")
assert got == os.path.join("out", "www", "demo", "src", "public", "a.txt.hash"), got
'''
NEEDS='a published folder that itself holds a folder named src/public'
BREAKS='the hash of a file in it is written at the wrong path, over that of another file'
