"""C16: canonical addresses."""
import importlib
import posixpath
import urllib.parse
import z3

from vc.contracts import Contract
from vc.engine import B, _and, _or
from vc.values import *
from vc import trusted

M = "vanillaplusjs.build.html.manips.link_rel_canonical"
NS = TOpt(TU("Namespace"))
Key = TTup(NS, TStr)
Attrs = TMap(Key, TStr)
QUOTE = z3.Function("percent_encoded", z3.StringSort(), z3.StringSort())
DIR = z3.Function("folder_of", z3.StringSort(), z3.StringSort())
trusted.ASSUME["C16"] = {
    "trusted": ["html5lib parses and serializes; attributes outside foreign elements have no namespace", "urllib.parse.quote percent-encodes a path; posixpath.dirname gives a path's folder"],
    "assumptions": ["the builder feeds every token of the page to the manipulator (C06)"],
}


def sv(x):
    return z3.StringVal(x)


def join(a, b):
    """posixpath.join of two parts."""
    return z3.If(z3.PrefixOf(sv("/"), b), b, z3.If(z3.Or(a == sv(""), z3.SuffixOf(sv("/"), a)), z3.Concat(a, b), z3.Concat(a, sv("/"), b)))


class Canonical(Contract):
    strings = True
    timeout = 15.0
    none_type = NS

    def key(self, name):
        return Key.mk(NS.none(), sv(name) if isinstance(name, str) else name)

    def has(self, name):
        return z3.Select(Attrs.has(self.attrs), self.key(name))

    def val(self, name):
        return z3.Select(Attrs.get(self.attrs), self.key(name))

    def setup_node(self, E, st, mode):
        m = importlib.import_module(M)
        self.kind, self.tag = z3.String("type"), z3.String("name")
        self.attrs = Attrs.const("attributes")
        self.host, self.nohost = z3.String("host"), z3.Bool("no_host")
        self.relpath = z3.String("relpath")
        k = z3.Const("k", Key.sort())
        st.assume(z3.ForAll([k], z3.Implies(z3.Select(Attrs.has(self.attrs), k), NS.is_none(Key.get(k, 0))), patterns=[z3.Select(Attrs.has(self.attrs), k)]))
        data = st.alloc(DictCell(sym=S(Attrs, self.attrs)))
        self.node = st.alloc(DictCell(items={"type": S(TStr, self.kind), "name": S(TStr, self.tag), "data": data}))
        ctx = importlib.import_module("vanillaplusjs.build.build_context").BuildContext
        h = TOpt(TStr)
        self.hoste = h.const("host_setting")
        self.context = st.alloc(ObjCell(ctx, {"host": S(h, self.hoste)}))
        self.me = st.alloc(ObjCell(m.LinkRelCanonicalManipulator, {"context": self.context, "relpath": S(TStr, self.relpath), "mode": mode}))
        st.assume(z3.PrefixOf(sv("src/public/"), self.relpath), z3.Length(self.relpath) > len("src/public/"))
        self.page = z3.SubString(self.relpath, 11, z3.Length(self.relpath) - 11)
        self.link = z3.And(self.kind == sv("EmptyTag"), self.tag == sv("link"), self.has("rel"), self.val("rel") == sv("canonical"))
        self.meta = z3.And(self.kind == sv("EmptyTag"), self.tag == sv("meta"), self.has("property"), self.val("property") == sv("og:url"))
        absolute = lambda n: z3.And(self.has(n), z3.Or(z3.PrefixOf(sv("http://"), self.val(n)), z3.PrefixOf(sv("https://"), self.val(n))))
        self.wanted = z3.Or(z3.And(self.link, z3.Not(absolute("href"))), z3.And(self.meta, z3.Not(absolute("content"))))

    def models(self):
        def quote(E, st, a, k):
            return [(st, S(TStr, QUOTE(E.embed(st, a[0], TStr))))]

        def dirname(E, st, a, k):
            return [(st, S(TStr, DIR(E.embed(st, a[0], TStr))))]

        def pjoin(E, st, a, k):
            r = E.embed(st, a[0], TStr)
            for x in a[1:]:
                r = join(r, E.embed(st, x, TStr))
            return [(st, S(TStr, r))]
        return {urllib.parse.quote: quote, posixpath.dirname: dirname, posixpath.join: pjoin}

    def str_hook(self, E, st, s, name, args, kwargs):
        if name == "replace" and all(isinstance(a, C) for a in args) and args[0].v == args[1].v:
            return [(st, s)]
        return None

    def sorted_hook(self, E, st, it, kw):
        # some order of the same elements
        return [(st, st.alloc(ListCell(seq=it.base)))]


class StartMark(Canonical):
    fn = M + ":LinkRelCanonicalManipulator.start_mark"
    expect_paths = 3

    def setup(self, E, st):
        self.scan = z3.Bool("scanning")
        self.setup_node(E, st, S(TStr, z3.If(self.scan, sv("scan"), sv("build"))))
        return [self.me, self.node], {}

    def post(self, E, pre, st, res):
        nohost = TOpt(TStr).is_none(self.hoste)
        if isinstance(res, Raised):
            E.oblige(st, "refused-only-without-a-host", z3.And(self.wanted, self.scan, nohost))
            E.oblige(st, "refusal-names-the-setting", B(getattr(res.cls, "__name__", "") == "MissingConfigurationException"))
            return
        r = B(E.truth(st, res))
        E.oblige(st, "marked-exactly-when-relative-and-building", r == z3.And(self.wanted, z3.Not(self.scan)))
        E.oblige(st, "scan-demands-a-host", z3.Not(z3.And(self.wanted, self.scan, nohost)))


class ContinueMark(Canonical):
    fn = M + ":LinkRelCanonicalManipulator.continue_mark"
    expect_paths = 2

    def setup(self, E, st):
        self.setup_node(E, st, C("build"))
        st.assume(self.wanted, z3.Not(TOpt(TStr).is_none(self.hoste)))
        self.host = TOpt(TStr).val(self.hoste)
        return [self.me, self.node], {}

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        k, x = E.list_get(st, res)
        E.oblige(st, "replaced-by-one-tag", B(k == "items" and len(x) == 1))
        if not (k == "items" and len(x) == 1):
            return
        c = st.heap[x[0].lid]
        E.oblige(st, "an-empty-tag-of-the-same-name", z3.And(E.embed(st, c.items["type"], TStr) == sv("EmptyTag"), E.embed(st, c.items["name"], TStr) == self.tag))
        new = E.embed(st, c.items["data"], Attrs)
        has = lambda e: z3.Select(Attrs.has(new), e)
        get = lambda e: z3.Select(Attrs.get(new), e)
        attr = z3.If(self.tag == sv("link"), sv("href"), sv("content"))
        given = z3.And(z3.Select(Attrs.has(self.attrs), self.key(attr)))
        value = z3.Select(Attrs.get(self.attrs), self.key(attr))
        own = z3.Concat(sv("/"), self.page)
        url = z3.Concat(sv("https://"), self.host, z3.If(given, z3.If(value == sv(""), value, join(DIR(QUOTE(own)), value)), QUOTE(own)))
        E.oblige(st, "the-address-is-absolute-and-right", z3.And(has(self.key(attr)), get(self.key(attr)) == url))
        any_ = z3.Const("any_key", Key.sort())
        other = any_ != self.key(attr)
        E.oblige(st, "every-other-attribute-is-kept", z3.Implies(z3.And(other, z3.Select(Attrs.has(self.attrs), any_)), z3.And(has(any_), get(any_) == z3.Select(Attrs.get(self.attrs), any_))))
        E.oblige(st, "no-attribute-is-added", z3.Implies(z3.And(other, has(any_)), z3.Select(Attrs.has(self.attrs), any_)))


CONTRACTS = {"C16": [StartMark, ContinueMark]}
