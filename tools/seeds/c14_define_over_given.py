ID='c14_define_over_given'
PROP='C14'
EDITS=[('vanillaplusjs/build/html/manips/template.py', '            if not isinstance(parsed_args[1], dict):\n                return None\n\n            variables = parsed_args[1]\n', '            if not isinstance(parsed_args[1], dict):\n                return None\n\n            variables = {k: v for k, v in parsed_args[1].items() if v}\n')]
DEMO=r'''
CFG = {"version": "1.0.0", "host": "example.com", "images": {"formats": {"png": {"exports": {"1": {"min_area_px2": None, "max_area_px2": None, "preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 100}}, "default_format": "png", "maximum_resolution": 1, "resolution_step": "0.5"}, "auto_generate_images_js_placeholders": True, "external_files": {}, "js_constants": {"relpath": "src/public/js/constants.js", "shared": {}, "dev": {}, "prod": {}}}
import json, os, tempfile
import vanillaplusjs.runners.build as b
def build(files, then=None):
    with tempfile.TemporaryDirectory() as d:
        for p, t in {"vanillaplusjs.json": json.dumps(CFG), **files}.items():
            os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
            with open(os.path.join(d, p), "w") as f:
                f.write(t)
        b.build(d, False, False, [])
        out = {}
        for top, _, names in os.walk(os.path.join(d, "out", "www")):
            for n in names:
                with open(os.path.join(top, n)) as f:
                    out[os.path.relpath(os.path.join(top, n), os.path.join(d, "out", "www"))] = f.read()
        return out

o = build({"src/public/index.html": '<!DOCTYPE html>\n<html><head><title>t</title></head><body><!--[TEMPLATE: ["/a.html", {"k": 0, "t": "x"}]]--></body></html>\n',
  "src/partials/a.html": '<p><!--[STACK: ["retrieve", "k"]]--></p>'})
assert "<p>0</p>" in o["index.html"], o["index.html"]
'''
NEEDS='a template is given 0, false or an empty text'
BREAKS='the variable is not defined and the build fails'
