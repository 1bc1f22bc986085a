"""Canonical addresses of whole pages: every canonical link and og:url of the
written page against what its source says."""
import os
import tempfile
from html.parser import HTMLParser

RULE = "random pages at random paths, with canonical links, og:url tags and near misses, with and without a host, through scan and build; non-trivial when the page has a canonical link or og:url without an absolute address"
CASE_LIMIT = 20


def preload():
    import vanillaplusjs.build.html.manipulate_and_serialize
    import vanillaplusjs.build.html.manips.link_rel_canonical


PAGES = ["index.html", "a/index.html", "blog/2022/post.html", "http.html"]
VALUES = [None, "", "/x.html", "/", "x.html", "y/z.html", "https://other.org/a", "http://other.org/", "http-guide.html", "https-guide/", "/http://x", "../up.html", "x.html?q=1&r=2"]
EXTRA = [{}, {"hreflang": "en"}, {"data-a": "1", "title": "a \"b\" & <c>"}, {"id": "z"}, {"property": "og:url"}, {"rel": "x"}, {"name": "q"}]


def tag(rng):
    kind = rng.choice(["link", "meta", "link", "meta", "other"])
    if kind == "link":
        t, main, attr = "link", ("rel", rng.choice(["canonical", "canonical", "canonical", "icon", "alternate"])), "href"
    elif kind == "meta":
        t, main, attr = "meta", ("property", rng.choice(["og:url", "og:url", "og:title"])), "content"
    else:
        t, main, attr = rng.choice(["link", "meta", "base"]), ("name", "canonical"), rng.choice(["href", "content"])
    at = [main]
    v = rng.choice(VALUES)
    if v is not None:
        at.append((attr, v))
    if rng.random() < 0.2:
        at.append(("content" if attr == "href" else "href", "/q"))
    for k, w in rng.choice(EXTRA).items():
        if k not in [a for a, _ in at]:
            at.append((k, w))
    rng.shuffle(at)
    return [t, at]


def fixed():
    return [{"page": "src/public/" + PAGES[1], "host": "example.com", "tags": [[t, [[m, n]] + ([[a, v]] if v is not None else [])]]} for t, m, n, a in (("link", "rel", "canonical", "href"), ("meta", "property", "og:url", "content")) for v in VALUES]


def rand(rng):
    return {"page": "src/public/" + rng.choice(PAGES), "host": rng.choice(["example.com", "example.com", "a.b.co:8080", None]), "tags": [tag(rng) for _ in range(rng.randint(0, 5))]}


def wanted(t, at):
    at = dict(at)
    for name, key, val, attr in (("link", "rel", "canonical", "href"), ("meta", "property", "og:url", "content")):
        if t == name and at.get(key) == val and not at.get(attr, "").startswith(("http://", "https://")):
            return attr
    return None


def nontrivial(case):
    return any(wanted(t, [tuple(a) for a in at]) for t, at in case["tags"])


class Reader(HTMLParser):
    def __init__(self):
        super().__init__()
        self.tags = []

    def handle_starttag(self, t, at):
        if t in ("link", "meta", "base") and "charset" not in dict(at):
            self.tags.append((t, dict(at)))


def run(case):
    from types import SimpleNamespace
    from html import escape
    from vanillaplusjs.build.html.manipulate_and_serialize import manipulate_and_serialize
    from vanillaplusjs.build.html.manips.link_rel_canonical import LinkRelCanonicalManipulator
    ctx = SimpleNamespace(host=case["host"])
    with tempfile.TemporaryDirectory() as d:
        src, dst = os.path.join(d, "in.html"), os.path.join(d, "out.html")
        with open(src, "w") as f:
            f.write("<!DOCTYPE html><html><head><title>t</title>")
            for t, at in case["tags"]:
                f.write("<" + t + "".join(f' {k}="{escape(v)}"' for k, v in at) + ">")
            f.write("</head><body><p>hi</p></body></html>")
        need = nontrivial(case)
        try:
            manipulate_and_serialize(src, None, [LinkRelCanonicalManipulator(ctx, case["page"], "scan")])
            if need and case["host"] is None:
                return f"{case}: scanned without a host"
        except Exception as e:
            if not (need and case["host"] is None):
                return f"{case}: scan raised {type(e).__name__}: {e}"
            return None
        if case["host"] is None:
            case = dict(case, host="unused")
        try:
            manipulate_and_serialize(src, dst, [LinkRelCanonicalManipulator(ctx, case["page"], "build")])
        except Exception as e:
            return f"{case}: build raised {type(e).__name__}: {e}"
        r = Reader()
        with open(dst, encoding="utf-8") as f:
            r.feed(f.read())
    own = case["page"][len("src/public"):]
    want = []
    for t, at in case["tags"]:
        at = dict(map(tuple, at))
        attr = wanted(t, at.items())
        if attr:
            v = at.get(attr)
            at[attr] = "https://" + case["host"] + (own if v is None else v if v.startswith("/") or not v else own[: own.rindex("/") + 1] + v)
        want.append((t, at))
    got = r.tags
    if got != want:
        return f"{case}: the page has {got}, expected {want}"
    return None
