"""Whole projects: random histories of edits, and building them in place of
the command line (work is done in this process, see rt/sync.py)."""
import asyncio
import base64
import hashlib
import json
import os
import urllib.parse

PAGES = ["src/public/index.html", "src/public/a/b.html", "src/public/p.html"]
PARTIALS = ["src/partials/t.html", "src/partials/u/v.html"]
CSS = ["src/public/css/main.css", "src/public/css/x/y.css"]
JS = ["src/public/js/m.js", "src/public/js/n/o.js", "src/public/q.js"]
PLAIN = ["src/public/img/i.txt", "src/public/fav.ico", "src/public/a/deep/z.svg", "src/other.txt"]
CONST = "src/public/js/constants.js"
ALL = PAGES + PARTIALS + CSS + JS + PLAIN + [CONST]
CONFIG = {"version": "1.0.0", "host": "example.com", "images": {"formats": {"png": {"exports": {"1": {"min_area_px2": None, "max_area_px2": None, "preference": 1, "formatter_kwargs": {}}}, "minimum_unit_size_bytes": 100}}, "default_format": "png", "maximum_resolution": 1, "resolution_step": "0.5"}, "auto_generate_images_js_placeholders": True, "external_files": {}, "js_constants": {"relpath": CONST, "shared": {"S": "s"}, "dev": {"M": "dev", "N": 1}, "prod": {"M": "prod", "N": 2}}}


def preload():
    import concurrent.futures
    import vanillaplusjs.runners.build as b
    import vanillaplusjs.build.hot_incremental_rebuild as h
    import vanillaplusjs.build.cold_incremental_rebuild as c
    import concurrent.futures.process
    import html5lib
    from rt.sync import SyncExecutor
    concurrent.futures.ProcessPoolExecutor = SyncExecutor
    c.ProcessPoolExecutor = SyncExecutor


def url(p):
    return p[len("src/public"):]


def render(path, spec):
    """spec: {"n": nonce, "refs": [[kind, ...], ...]}"""
    n, refs = spec["n"], spec["refs"]
    if path.endswith(".html"):
        out = []
        for r in refs:
            if r[0] == "css":
                out.append(f'<link rel="stylesheet" href="{url(r[1])}">')
            elif r[0] == "preload":
                out.append(f'<link rel="preload" as="{r[2]}" href="{url(r[1])}">')
            elif r[0] == "js":
                out.append(f'<script src="{url(r[1])}" type="module"></script>')
            elif r[0] == "tmpl":
                out.append(f'<!--[TEMPLATE: ["/{r[1][len("src/partials/"):]}", {{"k": "{r[2]}"}}]]-->')
            elif r[0] == "get":
                out.append('<!--[STACK: ["retrieve", "k"]]-->')
            elif r[0] == "script":
                out.append(f'<script type="module">{body_js(path, r[1])}</script>')
            elif r[0] == "style":
                out.append(f"<style>{body_css(r[1])}</style>")
        text = "\n".join(out) + f"<p>text {n}</p>\n"
        if path.startswith("src/partials"):
            return text
        return f"<!DOCTYPE html>\n<html><head><title>t</title></head><body>{text}</body></html>\n"
    if path.endswith(".css"):
        return body_css(refs) + f".n{n} {{ color: red; }}\n"
    if path.endswith(".js"):
        return body_js(path, refs) + f"export const n = {n};\n"
    return f"plain {n}\n"


def body_js(path, refs):
    out = []
    for i, r in enumerate(refs):
        if r[0] == "import":
            out.append(f"import {{ n as v{i} }} from '{url(r[1])}';\n")
        elif r[0] == "side":
            out.append(f"import '{url(r[1])}';\n")
        elif r[0] == "rel" and path.startswith("src/public"):
            p = os.path.relpath(r[1], os.path.dirname(path))
            out.append(f"import * as w{i} from '{p if p.startswith('../') else './' + p}';\n")
        elif r[0] == "hint":
            out.append("let t: string; // @@type-hint\n")
    return "".join(out)


def body_css(refs):
    out = []
    for i, r in enumerate(refs):
        if r[0] == "url":
            out.append(f'.u{i} {{ background: url("{url(r[1])}"); }}\n')
        elif r[0] == "bare":
            out.append(f".b{i} {{ background: url({url(r[1])}); }}\n")
        elif r[0] == "data":
            out.append(f'.d{i} {{ background: url("data:image/svg+xml;%3Csvg id={r[1]}%3E"); }}\n')
    return "".join(out)


def rand_refs(rng, path, have):
    """References a file of this kind may make, to files that exist; never a
    cycle."""
    def some(pool):
        pool = [p for p in pool if p in have and p != path]
        return rng.choice(pool) if pool else None

    refs = []
    pub = [p for p in PLAIN if p.startswith("src/public")]
    js = [p for p in JS + [CONST] if path not in JS or p == CONST or JS.index(p) > JS.index(path)]
    if path.endswith(".html"):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = rng.choice(["css", "preload", "js", "tmpl", "tmpl", "script", "style", "get"])
            if k == "css" and (p := some(CSS)):
                refs.append(["css", p])
            elif k == "preload" and (p := some(pub + CSS)):
                refs.append(["preload", p, "image"])
            elif k == "js" and (p := some(js)):
                refs.append(["js", p])
            elif k == "tmpl" and (p := some(PARTIALS if path not in PARTIALS else PARTIALS[PARTIALS.index(path) + 1:])):
                refs.append(["tmpl", p, rng.choice(["x", "y"])])
            elif k == "script":
                p = some(js)
                refs.append(["script", [["import", p]] if p and rng.random() < 0.7 else []])
            elif k == "style":
                p = some(pub)
                refs.append(["style", [["url", p]] if p and rng.random() < 0.7 else []])
            elif k == "get" and path in PARTIALS:
                refs.append(["get"])
    elif path.endswith(".css"):
        for _ in range(rng.choice([0, 1, 2])):
            k = rng.choice(["url", "bare", "data"])
            p = some(pub)
            if k == "data":
                refs.append(["data", rng.randrange(3)])
            elif p:
                refs.append([k, p])
    elif path.endswith(".js") and path != CONST:
        for _ in range(rng.choice([0, 1, 2])):
            k = rng.choice(["import", "side", "rel", "hint"])
            p = some(js)
            if k == "hint":
                refs.append(["hint"])
            elif p:
                refs.append([k, p])
    return refs


def drop(refs, gone):
    out = []
    for r in refs:
        if r[0] in ("script", "style"):
            r = [r[0], drop(r[1], gone)]
        elif len(r) > 1 and r[1] in gone:
            continue
        out.append(r)
    return out


def targets(refs):
    out = set()
    for r in refs:
        if r[0] in ("script", "style"):
            out |= targets(r[1])
        elif len(r) > 1 and isinstance(r[1], str):
            out.add(r[1])
    return out


def history(rng, nsteps, broken=0.1, only=None):
    pool = only or ALL
    state = {}
    steps = []
    nonce = 0
    for i in range(nsteps):
        ch = {}
        if i == 0:
            todo = [("add", p) for p in pool if rng.random() < 0.75]
        else:
            todo = []
            for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
                todo.append((rng.choice(["edit", "edit", "edit", "touch", "swap", "add", "delete"]), rng.choice(pool)))
            if rng.random() < 0.1 and len(state) > 1:
                todo.append(("delete", rng.choice(sorted(state))))
        names = {p for k, p in todo if k == "add"} | set(state)
        gone = {p for k, p in todo if k == "delete"}
        for k, p in todo:
            nonce += 1
            if k in ("edit", "add") and p not in gone and (p in state or k == "add"):
                state[p] = ch[p] = {"n": nonce if rng.random() < 0.7 else rng.randrange(3), "refs": rand_refs(rng, p, names - gone)}
            elif k == "swap" and p in state and p not in gone and p not in ch:
                # another file of the same size and age takes its place
                new = dict(state[p], n=(state[p]["n"] + 1) % 10 if state[p]["n"] < 10 else 10 + (state[p]["n"] + 1) % 90)
                state[p] = new
                ch[p] = dict(new, swap=1)
            elif k == "touch" and p in state and p not in gone:
                ch[p] = state[p]
        for p in gone:
            if p in state:
                del state[p]
                ch[p] = None
                if rng.random() > broken:
                    for q in state:
                        new = drop(state[q]["refs"], {p})
                        if new != state[q]["refs"]:
                            state[q] = ch[q] = {"n": state[q]["n"], "refs": new}
        mid = {}
        if state and i and rng.random() < 0.25:
            # saved while the build runs
            p = rng.choice(sorted(state))
            nonce += 1
            state[p] = {"n": nonce, "refs": rand_refs(rng, p, set(state)) if rng.random() < 0.3 else state[p]["refs"]}
            mid = {"mid": {p: state[p]}, "at": rng.randrange(2 * len(state))}
        steps.append({**mid, "change": ch, "dev": rng.random() < 0.5 if rng.random() < 0.3 or not steps else steps[-1]["dev"]})
    return steps


def put(d, path, text, swap=False):
    """swap: by a new file with the modification time of the one there"""
    f = os.path.join(d, path)
    if swap and os.path.exists(f):
        t = os.stat(f).st_mtime_ns
        with open(f + "~new", "w", newline="\n") as fp:
            fp.write(text)
        os.utime(f + "~new", ns=(t, t))
        os.replace(f + "~new", f)
        return
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, "w", newline="\n") as fp:
        fp.write(text)


def start(d, config=CONFIG):
    os.makedirs(os.path.join(d, "src", "public"))
    with open(os.path.join(d, "vanillaplusjs.json"), "w") as f:
        json.dump(config, f)


def build(d, dev, symlinks=False):
    """-> None, or the exception that ended the build"""
    from vanillaplusjs.runners.build import build as run
    try:
        run(d, dev, symlinks, [])
    except (Exception, SystemExit) as e:
        return e
    return None


def context(d, dev):
    from vanillaplusjs.build.build_context import BuildContext, load_js_constants
    from vanillaplusjs.build.html.manips.images.settings import load_image_settings
    from vanillaplusjs.build.css.manips.icons.settings import load_icon_settings
    c = BuildContext(d, dev=dev, symlinks=False)
    with open(c.config_file) as f:
        config = json.load(f)
    c.host = config["host"]
    c.icon_settings = load_icon_settings(c)
    c.image_settings = load_image_settings(config["images"])
    c.auto_generate_images_js_placeholders = config["auto_generate_images_js_placeholders"]
    c.js_constants = load_js_constants(config["js_constants"])
    c.delay_files = []
    return c


def tree(d, sub="", empty=True):
    r = {}
    top = os.path.join(d, sub)
    for base, dirs, names in os.walk(top):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                r[os.path.relpath(p, d)] = f.read()
        if empty and not dirs and not names and base != top:
            r[os.path.relpath(base, d) + "/"] = b""
    return r


def stats(d):
    r = {}
    for base, _, names in os.walk(d):
        for n in names:
            s = os.lstat(os.path.join(base, n))
            r[os.path.relpath(os.path.join(base, n), d)] = (s.st_ino, s.st_mtime_ns, s.st_size)
    return r


def graphs(d):
    """what the stored graphs say: name -> {file: [children]}"""
    from vanillaplusjs.build.graph import FileDependencyGraph
    out = {}
    for k in ("dependency_graph", "output_graph", "placeholder_graph"):
        from vanillaplusjs.build.build_context import BuildContext
        p = getattr(BuildContext(folder=d, dev=False, symlinks=False), k + "_file")
        if os.path.exists(p):
            with open(p) as f:
                g = FileDependencyGraph.load(f)
            out[k] = {n: sorted(set(g.get_children(n))) for n in g.nodes if g.get_children(n) or n.startswith("src") and k != "placeholder_graph"}
    return out


def sha(b):
    return base64.urlsafe_b64encode(hashlib.sha256(b).digest())
