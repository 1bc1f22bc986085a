ID='c24_spaces'
PROP='C24'
EDITS=[('vanillaplusjs/build/html/manips/outline.py', '        self.outlining_to.write(node["data"])', '        self.outlining_to.write(\n            node["data"] if node["type"] == "Characters" else node["data"][:16]\n        )')]
DEMO=r'''
CFG = {"version": "1.0.0", "host": "example.com", "images": {"formats": {"png": {"exports": {"1": {"min_area_px2": None, "max_area_px2": None, "preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 100}}, "default_format": "png", "maximum_resolution": 1, "resolution_step": "0.5"}, "auto_generate_images_js_placeholders": True, "external_files": {}, "js_constants": {"relpath": "src/public/js/constants.js", "shared": {}, "dev": {}, "prod": {}}}
import json, os, tempfile
import vanillaplusjs.runners.build as b
def build(files, then=None):
    with tempfile.TemporaryDirectory() as d:
        for p, t in {"vanillaplusjs.json": json.dumps(CFG), **files}.items():
            os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
            with open(os.path.join(d, p), "w") as f:
                f.write(t)
        b.build(d, False, False, [])
        out = {}
        for top, _, names in os.walk(os.path.join(d, "out", "www")):
            for n in names:
                with open(os.path.join(top, n)) as f:
                    out[os.path.relpath(os.path.join(top, n), os.path.join(d, "out", "www"))] = f.read()
        return out

o = build({"src/public/index.html": '<!DOCTYPE html>\n<html><head><title>t</title></head><body><script>f()\n\n                    </script></body></html>\n', "src/public/js/m.js": "f()\n\n                    "})
assert o["js/gen/index/1.js"] == o["js/m.js"], o["js/gen/index/1.js"]
'''
NEEDS='an inline script whose text begins or ends with more than sixteen white space characters'
BREAKS='the generated file is not the text of the script'
