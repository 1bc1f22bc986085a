"""References between files: small projects, built, against what each
reference should have become."""
import html
import os
import re
import tempfile
import urllib.parse

from rt import project as P

RULE = "random small projects whose pages, styles and scripts refer to one another in every form that is versioned and in the forms that are not (other hosts, queries, fragments, relative addresses, marked imports); non-trivial when some reference is to be versioned"
CASE_LIMIT = 40
preload = P.preload

PAGES = ["src/public/index.html", "src/public/a/b.html"]
CSS = ["src/public/x/css/m.css", "src/public/css/m.css", "src/public/css/x/y.css", "src/public/s-1.css"]
JS = ["src/public/js/m.js", "src/public/js/n/o.js", "src/public/q.min.js", "src/public/from.js"]
PLAIN = ["src/public/i.txt", "src/public/img/a/b.svg", "src/public/noext", "src/public/w.woff2", "src/public/css/css.css.map"]
ALL = PAGES + CSS + JS + PLAIN
FORMS = ["'%s'", "v0_ from '%s'", "* as v0_ from '%s'", "{} from '%s'", "{ a0_ } from '%s'", "{a0_ as b0_, c0_,} from\n'%s'", "d0_, { e0_ } from '%s'", "d0_ ,\n * as g0_\nfrom \"%s\"", "{ default as k0_ } from '%s'", "{\n h0_,\n i0_ as j0_ } from '%s'"]
BADFORMS = ["{ import as l0_ } from '%s'", "/* c */ m0_ from '%s'", "n0_ /* c */ from '%s'"]
OUTER = ["https://example.org/a.js", "//cdn.example.org/a.css", "//x", "http://example.com/q.js"]


def fixed():
    out = []
    for f in range(len(FORMS)):
        out.append({"refs": {JS[0]: [["import", f, "abs", JS[1], ""]]}})
        out.append({"refs": {JS[1]: [["import", f, "rel", JS[0], ""], ["import", (f + 1) % len(FORMS), "rel", JS[2], ""]]}})
    for f in range(len(BADFORMS)):
        out.append({"refs": {JS[0]: [["badimport", f, "abs", JS[1], ""]]}})
    for t in CSS[:2] + JS[:1] + PLAIN:
        out.append({"refs": {PAGES[0]: [["preload", "abs", t, ""], ["preload", "abs", t, "?x=1"], ["preload", "abs", t, "#f"]], CSS[2]: [["url", "abs", t, ""], ["bare", "abs", t, ""], ["url", "abs", t, "?"], ["bare", "abs", t, "#x"]]}})
    out.append({"refs": {PAGES[1]: [["css", "abs", CSS[0], ""], ["js", "abs", JS[0], ""], ["css", "abs", CSS[0], "?v=2"], ["js", "abs", JS[0], "#a"]], CSS[0]: [["url", "abs", CSS[0], ""]]}})
    out.append({"refs": {PAGES[1]: [[k, "outer", u, ""] for u in OUTER for k in ("css", "js", "preload")], CSS[0]: [["url", "outer", u, ""] for u in OUTER], JS[0]: [["import", 1, "outer", u, ""] for u in OUTER]}})
    return out


def rand(rng):
    refs = {}
    for p in PAGES + CSS + JS:
        if rng.random() < 0.4:
            continue
        rs = refs[p] = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            later = lambda pool: [q for q in pool if q not in pool or p not in pool or pool.index(q) > pool.index(p)]
            k = rng.choice(["css", "js", "preload", "preload"] if p in PAGES else ["url", "bare", "url"] if p in CSS else ["import", "import", "import", "badimport", "marked", "text"])
            pool = {"css": CSS, "js": JS, "preload": PLAIN + CSS + JS, "url": PLAIN + later(CSS), "bare": PLAIN + later(CSS)}.get(k, later(JS))
            how = rng.choice(["abs", "abs", "abs", "rel" if p in JS else "abs", "outer"])
            if not pool:
                how = "outer"
            t = rng.choice(OUTER) if how == "outer" else rng.choice(pool)
            if how == "abs" and k == "url" and rng.random() < 0.1:
                t = p
            tail = rng.choice(["", "", "", "", "?a=b", "#f", "?", "?x&y#z"])
            r = [k, how, t, tail]
            if "import" in k or k == "marked":
                r.insert(1, rng.randrange(len(BADFORMS) if k == "badimport" else len(FORMS)))
            rs.append(r)
    return {"refs": refs}


def address(p, how, t, tail):
    if how == "outer":
        return t + tail
    if how == "rel":
        r = os.path.relpath(t, os.path.dirname(p))
        return (r if r.startswith("../") else "./" + r) + tail
    return "/" + t[len("src/public/"):] + tail


def local(p, r):
    how, t, tail = r[-3:]
    return how != "outer" and not tail and r[0] not in ("badimport", "marked", "text") and (p not in CSS or t != p)


def nontrivial(case):
    return any(local(p, r) for p, rs in case["refs"].items() for r in rs)


def source(p, rs):
    out = []
    for i, r in enumerate(rs):
        u = address(p, *r[-3:])
        k = r[0]
        if k == "css":
            out.append(f'<link rel="stylesheet" id="r{i}" href="{html.escape(u)}" media="x">')
        elif k == "preload":
            out.append(f'<link as="font" href="{html.escape(u)}" id="r{i}" rel="preload" crossorigin>')
        elif k == "js":
            out.append(f'<script id="r{i}" src="{html.escape(u)}" defer></script>')
        elif k == "url":
            out.append(f'.r{i} {{ src: url("{u}") format("/i.txt"); }}' if i % 2 else f'.r{i} {{ background: url( "{u}" ); content: "/noext"; }}')
        elif k == "bare":
            out.append(f".r{i} {{ background: url({u}); }}")
        elif k == "text":
            out.append(f"let r{i} = 'import \"{u}\"';")
        else:
            f = (BADFORMS if k == "badimport" else FORMS)[r[1]] % u
            out.append(("/*PREPROCESSOR: ignore-import*/" if k == "marked" else "") + "import " + re.sub(r"([a-z])0_", lambda m: f"{m[1]}{i}_", f) + ";")
    if p.endswith(".html"):
        out.append("<a href='/q.min.js' id='keep'>x</a><link rel='icon' href='/i.txt' id='icon'>")
        return "<!DOCTYPE html>\n<html><head><title>t</title></head><body>" + "\n".join(out) + "</body></html>\n"
    return "\n".join(out) + ("\n.end { color: red; }\n" if p.endswith(".css") else "\nexport const a_end = 1;\n" if p.endswith(".js") else f"\n{p}\n")


def attributes(text):
    import html5lib
    out = {}
    for e in html5lib.parse(text, treebuilder="etree", namespaceHTMLElements=False).iter():
        if e.get("id"):
            out[e.get("id")] = (e.tag, dict(e.attrib))
    return out


def run(case):
    with tempfile.TemporaryDirectory() as d:
        P.start(d)
        src = {p: source(p, case["refs"].get(p, [])) for p in ALL}
        for p, t in src.items():
            P.put(d, p, t)
        err = P.build(d, False)
        if err is not None:
            return f"the build fails: {err!r}"
        from vanillaplusjs.constants import PROCESSOR_VERSION
        made = P.tree(d, "out/www")
        for p in PAGES + CSS + JS:
            text = made["out/www/" + p[len("src/public/"):]].decode()
            rs = case["refs"].get(p, [])
            want = []
            named = set()
            for r in rs:
                u = address(p, *r[-3:])
                if local(p, r):
                    t = r[-2]
                    pub = t[len("src/public/"):]
                    sha = P.sha(made["out/www/" + pub]).decode()
                    if made["out/www/" + pub + ".hash"].decode() != sha:
                        return f"out/www/{pub}.hash is not the hash of out/www/{pub}"
                    u = "/" + pub + "?" + urllib.parse.urlencode({"v": sha, "pv": PROCESSOR_VERSION})
                    named.add(t)
                want.append(u)
            if p.endswith(".html"):
                a, b = attributes(src[p]), attributes(text)
                if set(a) != set(b):
                    return f"{p}: elements {sorted(set(a) ^ set(b))} came or went"
                for i, (r, u) in enumerate(zip(rs, want)):
                    key = "src" if r[0] == "js" else "href"
                    a[f"r{i}"][1][key] = u
                bad = [k for k in a if a[k] != b[k]]
                if bad:
                    return f"{p}: {b[bad[0]]} should be {a[bad[0]]}"
            elif p.endswith(".css"):
                got = [m[2] for m in re.finditer(r"""url\(\s*(["']?)(.*?)\1\s*\)""", text)]
                said = re.findall(r'(?:format\(\s*|content:\s*)"(.*?)"', text)
                if said != ["/i.txt" if i % 2 else "/noext" for i, r in enumerate(rs) if r[0] == "url"]:
                    return f"{p}: the strings became {said}"
                if got != want:
                    return f"{p}: refers to {got}, should refer to {want}"
            else:
                got = [(bool(m[1]), m[2]) for m in re.finditer(r"""(/\*PREPROCESSOR: ignore-import(?:(?!\*/).)*\*/\s*)?\bimport\b(?:[^"';]|/\*.*?\*/)*?["'](.*?)["']""", text, re.S)]
                got = [(c, u.rstrip("\\")) for c, u in got]
                should = [(not local(p, r) and r[0] != "text", u) for r, u in zip(rs, want)]
                if got != should:
                    return f"{p}: imports {got}, should be {should}\n{text}"
            have = set(depends(d, p))
            if have != named:
                return f"{p} is taken to depend on {sorted(have)}, it refers to {sorted(named)}"
    return None


def depends(d, p):
    from vanillaplusjs.build.build_context import BuildContext
    from vanillaplusjs.build.graph import FileDependencyGraph
    with open(BuildContext(folder=d, dev=False, symlinks=False).dependency_graph_file) as f:
        g = FileDependencyGraph.load(f)
    return g.get_children(p) if p in g.nodes else []
