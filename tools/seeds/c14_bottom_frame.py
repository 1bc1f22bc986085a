ID='c14_bottom_frame'
PROP='C14'
EDITS=[('vanillaplusjs/build/html/manips/template.py', '                if desired_variable_name in self.current_frame.variables:\n                    variables[var_key] = self.current_frame.variables[\n                        desired_variable_name\n                    ]\n', '                frame = self.stack[-1] if len(self.stack) > 1 else self.current_frame\n                if desired_variable_name in frame.variables:\n                    variables[var_key] = frame.variables[desired_variable_name]\n')]
DEMO=r'''
CFG = {"version": "1.0.0", "host": "example.com", "images": {"formats": {"png": {"exports": {"1": {"min_area_px2": None, "max_area_px2": None, "preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 100}}, "default_format": "png", "maximum_resolution": 1, "resolution_step": "0.5"}, "auto_generate_images_js_placeholders": True, "external_files": {}, "js_constants": {"relpath": "src/public/js/constants.js", "shared": {}, "dev": {}, "prod": {}}}
import json, os, tempfile
import vanillaplusjs.runners.build as b
def build(files, then=None):
    with tempfile.TemporaryDirectory() as d:
        for p, t in {"vanillaplusjs.json": json.dumps(CFG), **files}.items():
            os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
            with open(os.path.join(d, p), "w") as f:
                f.write(t)
        b.build(d, False, False, [])
        out = {}
        for top, _, names in os.walk(os.path.join(d, "out", "www")):
            for n in names:
                with open(os.path.join(top, n)) as f:
                    out[os.path.relpath(os.path.join(top, n), os.path.join(d, "out", "www"))] = f.read()
        return out

C = {"type": "variable", "name": "k"}
o = build({"src/public/index.html": '<!DOCTYPE html>\n<html><head><title>t</title></head><body><!--[TEMPLATE: ["/a.html", {"k": "first"}]]--></body></html>\n',
  "src/partials/a.html": '<!--[TEMPLATE: ["/b.html", {"k": "second"}]]-->',
  "src/partials/b.html": '<!--[TEMPLATE: ["/c.html", {"k": {"type": "variable", "name": "k"}}]]-->',
  "src/partials/c.html": '<p><!--[STACK: ["retrieve", "k"]]--></p>'})
assert "<p>second</p>" in o["index.html"], o["index.html"]
'''
NEEDS='a template within a template within a template, passing on a variable of the same name'
BREAKS='the innermost one gets the value of an outer frame'
