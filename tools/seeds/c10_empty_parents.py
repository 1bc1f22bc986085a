ID='c10_empty_parents'
PROP='C10'
EDITS=[('vanillaplusjs/build/hot_incremental_rebuild.py','                folder = os.path.dirname(folder)\n','                folder = "" if folder.count(os.path.sep) == 3 else os.path.dirname(folder)\n')]
DEMO='''
CFG = {"version": "1.0.0", "host": "example.com", "images": {"formats": {"png": {"exports": {"1": {"min_area_px2": None, "max_area_px2": None, "preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 100}}, "default_format": "png", "maximum_resolution": 1, "resolution_step": "0.5"}, "auto_generate_images_js_placeholders": True, "external_files": {}, "js_constants": {"relpath": "src/public/js/constants.js", "shared": {}, "dev": {}, "prod": {}}}
import json, os, tempfile
import vanillaplusjs.runners.build as b
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "src", "public", "a", "b", "c.txt")
    os.makedirs(os.path.dirname(p))
    with open(os.path.join(d, "vanillaplusjs.json"), "w") as f:
        json.dump(CFG, f)
    for q in (p, os.path.join(d, "src", "public", "x.txt")):
        with open(q, "w") as f:
            f.write("x")
    b.build(d, False, False, [])
    os.unlink(p)
    b.build(d, False, False, [])
    assert sorted(os.listdir(os.path.join(d, "out", "www"))) == ["x.txt", "x.txt.hash"]
'''
NEEDS='the last file of a folder two levels down is deleted'
BREAKS='the folder above it stays, empty'
