ID='c16_extra_address'
PROP='C16'
EDITS=[('vanillaplusjs/build/html/manips/link_rel_canonical.py','            (key, value) for (_, key), value in node["data"].items() if key != tag.attr\n','            (key, value)\n            for (_, key), value in node["data"].items()\n            if key not in ("href", "content")\n')]
DEMO='''
from types import SimpleNamespace
from vanillaplusjs.build.html.manips.link_rel_canonical import LinkRelCanonicalManipulator
import vanillaplusjs.build.html.token as tkn
m = LinkRelCanonicalManipulator(SimpleNamespace(host="example.com"), "src/public/index.html", "build")
t = tkn.empty_tag("meta", {"property": "og:url", "href": "keep"})
assert m.start_mark(t)
n, = m.continue_mark(t)
assert n["data"].get((None, "href")) == "keep", n
assert n["data"].get((None, "content")) == "https://example.com/index.html", n
'''
NEEDS='a canonical link with a content attribute, or an og:url tag with an href'
BREAKS='that attribute is dropped from the written page'
