"""Templates: projects whose pages use them, against the same projects with
the text in its place."""
import json
import os
import tempfile

from rt import project as P

RULE = "random pages and partials with templates (rooted, relative, nested, with variables of their own and passed on), frames and variables, built, against the same pages with the text written out; non-trivial when a template is used within a template"
CASE_LIMIT = 60
preload = P.preload
PAGES = ["src/public/index.html", "src/public/a/b.html", "src/public/a/c d/e.html"]
PARTIALS = ["src/partials/t.html", "src/partials/u/v.html", "src/partials/u/w x.html", "src/partials/head/é.html", "src/public/a/inc.html"]
KEYS = ["k", "title", "", "a b", "type", "é\"'"]
VALUES = ["v", "", "<b>&amp;</b>", "a-->b", 'q"\'', 5, 1.5, -0.0, True, "é 漢 \U0001f600", "x\ny\t z ", "</title>", '[STACK: ["pop"]]', "variable", 10 ** 20, "[\\]"]
TEXT = ["text", "a &amp; b", "<p class=\"c\">p</p>", "<!-- c -->", "<!--[STACK: nonsense]-->", "é 漢", "\n  ", "<img alt=\"&quot;\">", '<link rel="stylesheet" href="/css/main.css">', "<!--[STACK: 5]-->", "<!--STACK: [\"pop\"]-->"]
GONE = ['<!--[STACK: ["what"]]-->', '<!--[STACK: ["retrieve"]]-->', '<!--[STACK: ["define", "k"]]-->', '<!--[TEMPLATE: ["/none.html", 5]]-->', '<!--[STACK: ["retrieve", 5]]-->', '<!--[STACK: ["push"]]-->', '<!--[STACK: ["retrieve", "k", "k"]]-->']
TAGS = ["div", "p", "main", "section", "title"]


def nodes(rng, i, depth):
    """what a page (i = -1) or partial i holds"""
    out = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        k = rng.choice(["text", "get", "get", "tmpl", "tmpl", "el", "def", "frame", "gone"])
        if k == "tmpl" and i + 1 < len(PARTIALS):
            vs = []
            for n in range(len(KEYS)):
                vs.append([n, rng.choice(["is", "is", "of"]), rng.randrange(len(KEYS)), rng.randrange(len(VALUES))])
            rng.shuffle(vs)
            out.append(["tmpl", rng.randrange(i + 1, len(PARTIALS)), vs, rng.choice(["root", "rel", "dots"]), rng.choice([0, 0, 1])])
        elif k == "get":
            out.append(["get", rng.randrange(len(KEYS))])
        elif k == "el" and depth < 3:
            out.append(["el", rng.randrange(len(TAGS)), nodes(rng, i, depth + 1)])
        elif k == "def":
            out.append(["def", rng.randrange(len(KEYS)), rng.randrange(len(VALUES))])
        elif k == "frame" and depth < 3:
            out.append(["frame", rng.randrange(len(PARTIALS)), nodes(rng, i, depth + 1)])
        elif k == "gone":
            out.append(["gone", rng.randrange(len(GONE))])
        else:
            out.append(["text", rng.randrange(len(TEXT))])
    return out


def fixed():
    out = []
    every = [[n, "is", 0, n] for n in range(len(KEYS))]
    on = [[n, "of", (n + 1) % len(KEYS), 0] for n in range(len(KEYS))]
    for v in range(len(VALUES)):
        out.append({"pages": [[["tmpl", 0, [[n, "is", 0, v] for n in range(len(KEYS))], "root", 0]]], "partials": [[["get", 0], ["el", 4, [["text", 0], ["get", 1]]]]]})
    for how in ("root", "rel", "dots"):
        out.append({"pages": [[], [["tmpl", 1, every, how, 0], ["get", 0]]], "partials": [[], [["tmpl", 2, on, how, 1], ["get", 1]], [["get", 0], ["get", 2]]]})
    return out


def rand(rng):
    return {"pages": [nodes(rng, -1, 0) for _ in range(rng.choice([1, 2, 3]))], "partials": [nodes(rng, i, 0) for i in range(len(PARTIALS))]}


def nontrivial(case):
    return any('"tmpl"' in json.dumps(p) for p in case["pages"]) and any('"tmpl"' in json.dumps(p) for p in case["partials"])


def comment(kind, what):
    return f"<!--[{kind}: {json.dumps(what).replace('-->', '--' + chr(92) + 'u003e').replace('&', chr(92) + 'u0026')}]-->"


def define_all():
    return "".join(comment("STACK", ["define", k, f"of the page <{n}>"]) for n, k in enumerate(KEYS))


def first_frame():
    return {k: f"of the page <{n}>" for n, k in enumerate(KEYS)}


def rooted(p):
    return p.startswith("src/partials/")


def written(ns, here, only_text=False):
    """with the commands"""
    out = []
    for x in ns:
        if only_text and (x[0] in ("el", "tmpl", "frame") or x[0] == "text" and "<" in TEXT[x[1]]):
            continue
        if x[0] == "text":
            out.append(TEXT[x[1]])
        elif x[0] == "gone":
            out.append(GONE[x[1]])
        elif x[0] == "get":
            out.append(comment("STACK", ["retrieve", KEYS[x[1]]]))
        elif x[0] == "def":
            out.append(comment("STACK", ["define", KEYS[x[1]], VALUES[x[2]]]))
        elif x[0] == "el":
            t = TAGS[x[1]]
            out.append(f"<{t}>{written(x[2], here, t in ('title', 'p'))}</{t}>")
        elif x[0] == "frame":
            out.append(comment("STACK", ["push", PARTIALS[x[1]]]) + define_all() + written(x[2], PARTIALS[x[1]]) + comment("STACK", ["pop"]))
        else:
            p = PARTIALS[x[1]]
            if x[3] == "root" and rooted(p):
                name = p[len("src/partials"):]
            elif x[3] == "dots" and here.count("/") > 1:
                name = "../" + os.path.relpath(p, os.path.dirname(os.path.dirname(here)))
            else:
                name = os.path.relpath(p, os.path.dirname(here))
            vs = {KEYS[n]: VALUES[v] if how == "is" else {"type": "variable", "name": KEYS[m]} for n, how, m, v in x[2]}
            vs["extra"] = {"type": "variable", "name": "unknown"}
            out.append(comment("TEMPLATE", [name, vs] + [7] * x[4]))
    # (html5lib has no comments in a title; what is put in their place does not reach past a tag)
    return "".join(out).replace("<", "\\u003c").replace("\\u003c!--", "<!--") if only_text else "".join(out)


def meant(ns, partials, frame, only_text=False):
    """with the text in its place"""
    out = []
    for x in ns:
        if only_text and (x[0] in ("el", "tmpl", "frame") or x[0] == "text" and "<" in TEXT[x[1]]):
            continue
        if x[0] == "text":
            out.append(TEXT[x[1]])
        elif x[0] == "get":
            out.append("".join(f"&#{ord(c)};" if c not in " \n\t" else c for c in str(frame[KEYS[x[1]]])))
        elif x[0] == "def":
            frame[KEYS[x[1]]] = VALUES[x[2]]
        elif x[0] == "el":
            t = TAGS[x[1]]
            out.append(f"<{t}>{meant(x[2], partials, frame, t in ('title', 'p'))}</{t}>")
        elif x[0] == "frame":
            out.append(meant(x[2], partials, first_frame()))
        elif x[0] == "raw":
            out.append("<p>public</p>")
        elif x[0] == "tmpl":
            own = {KEYS[n]: VALUES[v] if how == "is" else frame[KEYS[m]] for n, how, m, v in x[2]}
            out.append(meant(partials[x[1]], partials, own))
    return "".join(out)


def page(body, title, head=""):
    return f"<!DOCTYPE html>\n<html><head>{head}<title>{title}</title></head><body>{body}</body></html>\n"


def run(case):
    partials = list(case["partials"]) + [[["text", 0]]] * (len(PARTIALS) - len(case["partials"]))
    got = {}
    with tempfile.TemporaryDirectory() as top:
        for plain in (False, True):
            d = os.path.join(top, str(plain))
            P.start(d)
            P.put(d, "src/public/css/main.css", ".a { color: red; }\n")
            for p, ns in zip(PARTIALS, partials):
                # what is public is a page of its own as well: there it stands alone
                P.put(d, p, "".join(TEXT[x[1]] for x in ns if x[0] == "text") + "<p>public</p>" if not rooted(p) else written(ns, p))
            for p, ns in zip(PAGES, case["pages"]):
                if plain:
                    P.put(d, p, page(meant(ns, Public(partials), first_frame()), "t: of the page &lt;1&gt; - t"))
                else:
                    P.put(d, p, page(written(ns, p), "t: " + comment("STACK", ["retrieve", "title"]) + " - t", define_all()))
            err = P.build(d, False)
            if err is not None:
                return f"the build of the pages {'written out' if plain else 'with templates'} fails: {err!r}"
            got[plain] = P.tree(d, "out/www")
    a, b = got[False], got[True]
    for p in sorted(set(a) | set(b)):
        if a.get(p) != b.get(p):
            return f"{p} is {a.get(p)!r}, written out {b.get(p)!r}"
    return None


class Public(list):
    """partials, the last one (a public page as well) being what it holds there"""

    def __getitem__(self, i):
        x = super().__getitem__(i)
        return x if rooted(PARTIALS[i]) else [y for y in x if y[0] == "text"] + [["raw"]]
