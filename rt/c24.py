"""Inline scripts and styles: pages with them, against the same pages that
refer to files with the same contents."""
import os
import tempfile

from rt import project as P

RULE = "random pages and partials with inline scripts and styles with attributes, imports and urls, built, against the same pages referring to files that hold the same text; non-trivial when there are at least two inline elements"
CASE_LIMIT = 40
preload = P.preload
PAGES = ["src/public/index.html", "src/public/a/b.html", "src/public/a/b/c.html", "src/public/a.html"]
JS = ["src/public/js/m.js", "src/public/q.js"]
PLAIN = ["src/public/img/i.txt", "src/public/css/w.svg"]
SCRIPTS = ["\n" + " " * 30 + "f();\n\n" + " " * 40, "let a = 1;", "", "\n  if (a < 2 && b > 3) { c(); }\n", "x = '<p>&amp;</p>';", "// é 漢\nf(`${1}`);", "import { n } from '/js/m.js';\n", "import '/q.js';", "a = /[/<]/;", "let t: string; // @@type-hint\n/* @@type-hint*/\nlet u;", "\t"]
STYLES = [".a { color: red; }", "", ".b > .c::before { content: \"<\\26\"; }", ".d { background: url(\"/img/i.txt\"); }", ".e { background: url(/css/w.svg); }", "\n.f {\n}\n", "@media (min-width: 1px) { .g { color: red; } }"]
SATTR = ["", ' type="module"', " defer", ' nonce="x&amp;y" id="s"', ' type="text/javascript" data-z="1"', ' type="Module" crossorigin="use-credentials"']
DATA = ['<script type="application/ld+json">{"a": "</x>"}</script>', '<script type="importmap">{"imports": {}}</script>', '<script type="text/x-template" id="t"><b>"{{x}}"</b></script>']
YATTR = ["", ' media="print"', ' id="y" title="a&quot;b"']


def fixed():
    out = []
    for i in range(len(SCRIPTS)):
        out.append({"pages": {PAGES[1]: [["script", i, i % len(SATTR), "body"]]}})
    for i in range(len(STYLES)):
        out.append({"pages": {PAGES[0]: [["style", i, i % len(YATTR), "head"], ["style", i, 0, "head"]]}})
    return out


def rand(rng):
    pages = {}
    for p in PAGES:
        if rng.random() < 0.6:
            pages[p] = []
            for _ in range(rng.choice([0, 1, 2, 3, 4])):
                k = rng.choice(["script", "script", "style", "ref", "text", "data"])
                pages[p].append([k, rng.randrange(len(SCRIPTS) if k == "script" else len(STYLES)), rng.randrange(len(SATTR) if k == "script" else len(YATTR)), rng.choice(["head", "body", "deep"])])
    return {"pages": pages, "order": rng.randrange(100)}


def nontrivial(case):
    return sum(e[0] in ("script", "style") for es in case["pages"].values() for e in es) > 1


def page(p, es, outline):
    """-> text, {path: contents}"""
    parts = {"head": [], "body": [], "deep": []}
    files = {}
    where = os.path.splitext(p[len("src/public/"):])[0]
    n = {"script": 0, "style": 0}
    for place in ("head", "body", "deep"):
        for k, i, a, at in es:
            if at != place:
                continue
            if k in n:
                n[k] += 1
                text, attr = (SCRIPTS[i], SATTR[a]) if k == "script" else (STYLES[i], YATTR[a])
                ref = f"/{'js' if k == 'script' else 'css'}/gen/{where}/{n[k]}.{'js' if k == 'script' else 'css'}"
                if outline:
                    files["src/public" + ref] = text
                    x = f'<script{attr} src="{ref}"></script>' if k == "script" else f'<link{attr} rel="stylesheet" href="{ref}">'
                else:
                    x = f"<{k}{attr}>{text}</{k}>"
            elif k == "data":
                x = DATA[i % len(DATA)]
            elif k == "ref":
                x = '<script src="/js/m.js"></script>'
            else:
                x = "<!-- c -->" if at == "head" else "<p>text</p>"
            parts[place].append(x)
    return "<!DOCTYPE html>\n<html><head><title>t</title>" + "".join(parts["head"]) + "</head><body><p>x</p>" + "\n".join(parts["body"]) + "<div><main>" + "".join(parts["deep"]) + "</main></div></body></html>\n", files


def run(case):
    import random
    from rt import sync
    sync.ORDER = random.Random(case.get("order", 0))
    got = {}
    with tempfile.TemporaryDirectory() as top:
        for outline in (False, True):
            d = os.path.join(top, str(outline))
            P.start(d)
            for p in JS:
                P.put(d, p, "export const n = 1;\n")
            for p in PLAIN:
                P.put(d, p, "x")
            for p, es in case["pages"].items():
                text, files = page(p, es, outline)
                P.put(d, p, text)
                for q, t in files.items():
                    P.put(d, q, t)
            before = P.tree(d, "src")
            err = P.build(d, False)
            if err is not None:
                return f"the build of the pages {'with files' if outline else 'as they are'} fails: {err!r}"
            if P.tree(d, "src") != before:
                return f"the build changed the sources: {sorted(set(P.tree(d, 'src')) ^ set(before))[:4]}"
            got[outline] = P.tree(d, "out/www")
            if not outline:
                b2 = P.stats(d)
                err = P.build(d, False)
                if err is not None or P.stats(d) != b2:
                    return f"building again with nothing changed {'fails' if err else 'writes files'}"
    a, b = got[False], got[True]
    for p, es in case["pages"].items():
        for k, i, _, _ in es:
            if k == "data" and DATA[i % len(DATA)].encode() not in a["out/www/" + p[len("src/public/"):]]:
                return f"{p} no longer holds {DATA[i % len(DATA)]}"
    for p in sorted(set(a) | set(b)):
        if a.get(p) != b.get(p):
            return f"{p} is {a.get(p)!r}, with the text in files {b.get(p)!r}"
    return None
