ID='c10_signature_late'
PROP='C10'
EDITS=[('vanillaplusjs/build/hot_incremental_rebuild.py','            if file in changed_files:\n                new_signature = changed_files[file]\n            elif file in added_files:\n                new_signature = added_files[file]\n','            if file in changed_files or file in added_files:\n                new_signature = get_file_signature(os.path.join(context.folder, file))\n')]
DEMO='''
CFG = {"version": "1.0.0", "host": "example.com", "images": {"formats": {"png": {"exports": {"1": {"min_area_px2": None, "max_area_px2": None, "preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 100}}, "default_format": "png", "maximum_resolution": 1, "resolution_step": "0.5"}, "auto_generate_images_js_placeholders": True, "external_files": {}, "js_constants": {"relpath": "src/public/js/constants.js", "shared": {}, "dev": {}, "prod": {}}}
import concurrent.futures, json, os, tempfile
import vanillaplusjs.runners.build as b
import vanillaplusjs.build.hot_incremental_rebuild as h

class Here(concurrent.futures.Executor):
    def __init__(self, *a, **k):
        pass
    def submit(self, fn, ctx, file, *a):
        f = concurrent.futures.Future()
        f.set_result(fn(ctx, file, *a))
        if fn is h.build_file and file.endswith("a.txt") and not saved:
            saved.append(1)
            with open(os.path.join(d, file), "w") as fp:
                fp.write("second")
        return f
    def shutdown(self, wait=True, **k):
        pass

saved = []
concurrent.futures.ProcessPoolExecutor = Here
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, "src", "public"))
    with open(os.path.join(d, "vanillaplusjs.json"), "w") as f:
        json.dump(CFG, f)
    with open(os.path.join(d, "src", "public", "a.txt"), "w") as f:
        f.write("one")
    b.build(d, False, False, [])
    b.build(d, False, False, [])
    assert saved
    with open(os.path.join(d, "out", "www", "a.txt")) as f:
        assert f.read() == "second"
'''
NEEDS='a file saved while a build runs, after it was read'
BREAKS='the next build does not notice it'
