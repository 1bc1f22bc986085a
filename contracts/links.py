"""C08: references to files of the project carry the version of what they name."""
import builtins
import importlib
import os
import urllib.parse
import z3

from vc.engine import B, _and, _or
from vc.values import *
from vc import trusted
from contracts.disk import *  # noqa: F401,F403
from contracts.pipeline import jstok

MP = "vanillaplusjs.build."
LH, VU, HI = MP + "html.manips.link_hash", MP + "css.manips.version_urls", MP + "js.manips.hash_imports"
trusted.ASSUME["C08"] = {
    "trusted": ["html5lib parses and serializes; attributes outside foreign elements have no namespace", "os.path, open and urllib.parse.urlencode", "str.lower, used to compare a CSS function's name with url"],
    "assumptions": ["a hash file holds the hash of the published file and no white space around it (C22)", "the builder feeds every token of the file to the manipulator and hands it on as C06 says; CSS and JS tokens are those of the text (C05 for JS)", "posix paths"],
}
NS = TOpt(TU("Namespace"))
Key = TTup(NS, TStr)
Attrs = TMap(Key, TStr)
SSet = TSet(TStr)
TXT = z3.Function("text_in", Content.sort(), z3.StringSort())
QUERY = z3.Function("version_query", z3.StringSort(), z3.StringSort())
LOWER = z3.Function("lower_case", z3.StringSort(), z3.StringSort())
STRIP = z3.Function("without_outer_space", z3.StringSort(), z3.StringSort())
NORM = z3.Function("normalized_path", z3.StringSort(), z3.StringSort())
PUB = z3.Function("relative_to_public", z3.StringSort(), z3.StringSort())


def no(s, *chars):
    return z3.And(*[z3.Not(z3.Contains(s, sv(c))) for c in chars])


def local(s):
    """a rooted reference to this site, without query or fragment"""
    return z3.And(z3.PrefixOf(sv("/"), s), z3.Not(z3.PrefixOf(sv("//"), s)), no(s, "?", "#"))


def rest(s):
    return z3.SubString(s, 1, z3.Length(s) - 1)


def under(prefix, p):
    return z3.Concat(sv(prefix), p)


class Links(Disk):
    timeout = 15.0
    no_termination = True
    none_type = NS

    def begin(self, E, st):
        self.disk(st)
        self.ctx = self.context(st)
        h = z3.Const("h", Content.sort())
        st.assume(z3.ForAll([h], STRIP(TXT(h)) == TXT(h), patterns=[TXT(h)]))
        self.rel = z3.String("relpath")
        self.scan = z3.Bool("scanning")
        self.dep0, self.ch0 = SSet.const("dependencies0"), SSet.const("children0")
        self.deps, self.children = st.alloc(SetCell(sym=S(SSet, self.dep0))), st.alloc(SetCell(sym=S(SSet, self.ch0)))
        self.mode = S(TStr, z3.If(self.scan, sv("scan"), sv("build")))

    def fields(self):
        return {"context": self.ctx, "relpath": S(TStr, self.rel), "mode": self.mode, "dependencies": self.deps, "children": self.children}

    def added(self, E, st, lid, before, what):
        """the set is what it was, with `what` = [(condition, string)] added"""
        e = E.embed(st, st.heap[self.me.lid].fields[lid], SSet)
        x = z3.String(fresh_name("any_entry"))
        return z3.Select(e, x) == z3.Or(z3.Select(before, x), *[z3.And(c, x == t) for c, t in what])

    def hash_at(self, p):
        return self.at(z3.Concat(sv("out/www/"), p, sv(".hash")))

    def str_hook(self, E, st, s, name, args, kwargs):
        if name == "replace" and all(isinstance(a, C) for a in args) and args[0].v == args[1].v:
            return [(st, s)]
        if name == "strip" and not args:
            return [(st, S(TStr, STRIP(E.embed(st, s, TStr))))]
        if name == "lower" and not args:
            return [(st, S(TStr, LOWER(E.embed(st, s, TStr))))]
        return None

    def sorted_hook(self, E, st, it, kw):
        return [(st, st.alloc(ListCell(seq=it.base)))]

    def method_hook(self, E, st, recv, name, args, kwargs):
        if isinstance(recv, L) and isinstance(st.heap[recv.lid], ObjCell) and st.heap[recv.lid].cls is File and name == "read" and not args:
            return [(st, S(TStr, TXT(self.version)))]
        return super().method_hook(E, st, recv, name, args, kwargs)

    def models(self):
        out = super().models()

        def urlencode(E, st, a, k):
            from vanillaplusjs.constants import PROCESSOR_VERSION
            c = st.heap[a[0].lid] if isinstance(a[0], L) else None
            if not isinstance(c, DictCell) or c.items is None or list(c.items) != ["v", "pv"]:
                E.oblige(st, "the-query-is-the-hash-and-the-processor-version", B(False))
                return [(st, S(TStr, TStr.fresh("query")))]
            E.oblige(st, "the-query-names-the-processor-version", E.embed(st, c.items["pv"], TStr) == sv(PROCESSOR_VERSION))
            return [(st, S(TStr, QUERY(E.embed(st, c.items["v"], TStr))))]
        out[urllib.parse.urlencode] = urlencode
        open0 = out[builtins.open]

        def open_(E, st, a, k):
            # the only file read is the hash of what is referred to
            E.oblige(st, "reads-the-version-of-what-is-referred-to", E.embed(st, a[0], TStr) == self.hash_of())
            return open0(E, st, [S(TStr, self.hash_of())] + list(a[1:]), k)
        out[builtins.open] = open_
        return out

    version = Content.const("version_of_what_is_referred_to")

    def hash_of(self):
        raise Unsupported("a file is read")

    def versioned(self, url):
        return z3.Concat(url, sv("?"), QUERY(TXT(self.version)))


# ------------------------------------------------------------------- HTML
class Html(Links):
    def setup(self, E, st):
        m = importlib.import_module(LH)
        self.begin(E, st)
        self.kind, self.tag = z3.String("type"), z3.String("name")
        self.attrs = Attrs.const("attributes")
        k = z3.Const("k", Key.sort())
        st.assume(z3.ForAll([k], z3.Implies(z3.Select(Attrs.has(self.attrs), k), NS.is_none(Key.get(k, 0))), patterns=[z3.Select(Attrs.has(self.attrs), k)]))
        data = st.alloc(DictCell(sym=S(Attrs, self.attrs)))
        self.node = st.alloc(DictCell(items={"type": S(TStr, self.kind), "name": S(TStr, self.tag), "data": data}))
        self.me = st.alloc(ObjCell(m.LinkHash, self.fields()))
        rel = self.val("rel")
        link = z3.And(self.kind == sv("EmptyTag"), self.tag == sv("link"), self.has("rel"), z3.Or(rel == sv("stylesheet"), rel == sv("preload")))
        script = z3.And(self.kind == sv("StartTag"), self.tag == sv("script"))
        self.ref_in = {"href": z3.And(link, self.has("href"), local(self.val("href"))), "src": z3.And(script, self.has("src"), local(self.val("src")))}
        self.ref = z3.Or(*self.ref_in.values())
        return [self.me, self.node], {}

    def key(self, name):
        return Key.mk(NS.none(), sv(name) if isinstance(name, str) else name)

    def has(self, name):
        return z3.Select(Attrs.has(self.attrs), self.key(name))

    def val(self, name):
        return z3.Select(Attrs.get(self.attrs), self.key(name))


class HtmlStart(Html):
    fn = LH + ":LinkHash.start_mark"
    title = "LinkHash.start_mark"
    expect_paths = 3

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        E.oblige(st, "marked-exactly-when-a-local-reference-and-building", B(E.truth(st, res)) == z3.And(self.ref, z3.Not(self.scan)))
        for scan, lid, before, what in ((self.scan, "dependencies", self.dep0, "scan-depends-on-exactly-what-is-referred-to"), (z3.Not(self.scan), "children", self.ch0, "build-refers-to-exactly-that")):
            E.oblige(st, what, self.added(E, st, lid, before, [(z3.And(c, scan), under("src/public/", rest(self.val(a)))) for a, c in self.ref_in.items()]))


class HtmlContinue(Html):
    fn = LH + ":LinkHash.continue_mark"
    of = None

    def setup(self, E, st):
        r = super().setup(E, st)
        self.attr = self.of
        self.url = self.val(self.attr)
        st.assume(self.ref_in[self.of], z3.Not(self.scan), self.has_(self.fs0, self.hash_at(rest(self.url))))
        return r

    def hash_of(self):
        return self.hash_at(rest(self.url))

    def has_(self, f, p):
        return z3.Select(FS.has(f), p)

    def has(self, *a):
        return Html.has(self, *a) if len(a) == 1 else self.has_(*a)

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        k, x = E.list_get(st, res)
        E.oblige(st, "replaced-by-one-tag", B(k == "items" and len(x) == 1))
        if not (k == "items" and len(x) == 1):
            return
        c = st.heap[x[0].lid]
        E.oblige(st, "of-the-same-type-and-name", z3.And(E.embed(st, c.items["type"], TStr) == self.kind, E.embed(st, c.items["name"], TStr) == self.tag))
        new = E.embed(st, c.items["data"], Attrs)
        at = self.key(self.attr)
        E.oblige(st, "the-reference-carries-the-version", z3.And(z3.Select(Attrs.has(new), at), z3.Select(Attrs.get(new), at) == self.versioned(self.url)))
        any_ = z3.Const("any_key", Key.sort())
        E.oblige(st, "every-other-attribute-is-kept", z3.Implies(z3.And(any_ != at, z3.Select(Attrs.has(self.attrs), any_)), z3.And(z3.Select(Attrs.has(new), any_), z3.Select(Attrs.get(new), any_) == z3.Select(Attrs.get(self.attrs), any_))))
        E.oblige(st, "no-attribute-is-added", z3.Implies(z3.And(any_ != at, z3.Select(Attrs.has(new), any_)), z3.Select(Attrs.has(self.attrs), any_)))
        E.oblige(st, "nothing-else-is-referred-to", self.added(E, st, "children", self.ch0, []))


HtmlContinueLink = type("HtmlContinueLink", (HtmlContinue,), {"of": "href", "title": "LinkHash.continue_mark[link]"})
HtmlContinueScript = type("HtmlContinueScript", (HtmlContinue,), {"of": "src", "title": "LinkHash.continue_mark[script]"})


# -------------------------------------------------------------------- CSS
class Css(Links):
    def setup(self, E, st):
        m = importlib.import_module(VU)
        TT = importlib.import_module(MP + "css.token").CSSTokenType
        self.begin(E, st)
        self.EN = TEnum(TT)
        self.type, self.value = self.EN.const("type"), z3.String("value")
        self.inurl = z3.Bool("in_url")
        self.node = st.alloc(DictCell(items={"type": S(self.EN, self.type), "value": S(TStr, self.value)}))
        self.me = st.alloc(ObjCell(m.VersionURLsManipulator, {**self.fields(), "_in_url": S(TBool, self.inurl)}))
        self.ty = lambda *ns: _or([self.type == self.EN.member(getattr(TT, n)) for n in ns])
        self.src = under("src/public/", rest(self.value))
        self.hashrel = z3.Concat(sv("out/www/"), rest(self.value), sv(".hash"))
        # a file that refers to itself cannot name its own version
        self.ref = z3.And(z3.If(self.inurl, self.ty("string"), self.ty("url")), local(self.value), self.src != self.rel)
        return [self.me, self.node], {}


class CssStart(Css):
    fn = VU + ":VersionURLsManipulator.start_mark"
    title = "VersionURLsManipulator.start_mark"
    expect_paths = 5

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        E.oblige(st, "marked-exactly-when-a-local-url-and-building", B(E.truth(st, res)) == z3.And(self.ref, z3.Not(self.scan)))
        E.oblige(st, "scan-depends-on-exactly-the-versions-used", self.added(E, st, "dependencies", self.dep0, [(z3.And(self.ref, self.scan), self.hashrel)]))
        E.oblige(st, "build-refers-to-nothing-yet", self.added(E, st, "children", self.ch0, []))
        now = B(E.truth(st, st.heap[self.me.lid].fields["_in_url"]))
        opens = z3.And(self.ty("function"), LOWER(self.value) == sv("url"))
        E.oblige(st, "within-url-exactly-between-its-parentheses", now == z3.If(self.inurl, z3.Not(self.ty("right_parens")), opens))


class CssContinue(Css):
    fn = VU + ":VersionURLsManipulator.continue_mark"
    title = "VersionURLsManipulator.continue_mark"

    def setup(self, E, st):
        r = super().setup(E, st)
        st.assume(self.ref, z3.Not(self.scan), self.has(self.fs0, self.at(self.hashrel)))
        return r

    def hash_of(self):
        return self.at(self.hashrel)

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        k, x = E.list_get(st, res)
        E.oblige(st, "replaced-by-one-token", B(k == "items" and len(x) == 1))
        if not (k == "items" and len(x) == 1):
            return
        c = st.heap[x[0].lid]
        E.oblige(st, "only-the-value-changes", z3.And(B(set(c.items) == {"type", "value"}), E.embed(st, c.items["type"], self.EN) == self.type))
        E.oblige(st, "the-url-carries-the-version", E.embed(st, c.items["value"], TStr) == self.versioned(self.value))
        E.oblige(st, "build-refers-to-exactly-that-version", self.added(E, st, "children", self.ch0, [(z3.BoolVal(True), self.hashrel)]))


# --------------------------------------------------------------------- JS
class Js(Links):
    def setup_js(self, E, st):
        m = importlib.import_module(HI)
        self.TT = importlib.import_module(MP + "js.token").JSTokenType
        self.begin(E, st)
        self.T = jstok()
        E.recs.append(self.T)
        self.EN = TEnum(self.TT)
        self.TS = TSeq(self.T)
        self.stack0 = self.TS.const("stack0")
        self.stack = st.alloc(ListCell(seq=S(self.TS, self.stack0)))
        self.skip0 = z3.Bool("skip_next_import")
        self.me = st.alloc(ObjCell(m.HashImportsManipulator, {**self.fields(), "skip_next_import": S(TBool, self.skip0), "stack": self.stack, "state": C("marking"), "generator": C(None)}))

    def is_(self, t, *names):
        e = self.T.get(t, "type")
        return _or([e == self.EN.member(getattr(self.TT, n)) for n in names])

    def valid(self, t):
        return [z3.Implies(self.is_(t, "comment", "identifier", "string_literal"), z3.Not(TOpt(TStr).is_none(self.T.get(t, "value"))))]

    def val_(self, t):
        return TOpt(TStr).val(self.T.get(t, "value"))

    def tok(self, kind, value):
        return self.T.mk(*[{"type": self.EN.member(getattr(self.TT, kind)), "value": TOpt(TStr).some(value)}[f] for f in self.T.fields])

    def stk(self, E, st):
        return E.embed(st, st.heap[self.me.lid].fields["stack"], self.TS)

    def flag(self, E, st):
        return B(E.truth(st, st.heap[self.me.lid].fields["skip_next_import"]))

    def models(self):
        out = super().models()
        parts, absolute = {}, {}
        s = lambda E, st, x: E.embed(st, x, TStr)
        j0 = out[os.path.join]

        def pjoin(E, st, a, k):
            r = j0(E, st, a, k)
            es = [s(E, st, x) for x in a]
            while es and es[0].get_id() in parts:
                es = list(parts[es[0].get_id()]) + es[1:]
            parts[r[0][1].e.get_id()] = es
            self.keep.append(r[0][1].e)
            return r

        def abspath(E, st, a, k):
            e = s(E, st, a[0])
            r = z3.Function("absolute_path", z3.StringSort(), z3.StringSort())(e)
            absolute[r.get_id()] = parts.get(e.get_id(), [e])
            self.keep += [r, e]
            return [(st, S(TStr, r))]

        def relpath(E, st, a, k):
            e = s(E, st, a[0])
            start = s(E, st, k.get("start", a[1] if len(a) > 1 else C(".")))
            ps = absolute.get(e.get_id(), parts.get(e.get_id(), [e]))
            base = absolute.get(start.get_id(), [start])
            if len(base) == 1 and z3.eq(base[0], self.folder) and z3.eq(ps[0], self.folder) and len(ps) > 1:
                r = ps[1]
                for x in ps[2:]:
                    r = join(r, x)
                return [(st, S(TStr, NORM(r)))]
            start = z3.simplify(start)
            if z3.is_string_value(start) and start.as_string() in ("src/public", "src/public/"):
                return [(st, S(TStr, PUB(e)))]
            raise Unsupported("relative path")

        def normpath(E, st, a, k):
            return [(st, S(TStr, NORM(s(E, st, a[0]))))]
        self.keep = []
        out.update({os.path.join: pjoin, os.path.abspath: abspath, os.path.relpath: relpath, os.path.normpath: normpath})
        return out


class JsImport(Js):
    fn = HI + ":HashImportsManipulator._handle_import"
    title = "HashImportsManipulator._handle_import"
    expect_paths = 3

    def setup(self, E, st):
        self.setup_js(E, st)
        self.path = z3.String("import_path")
        n = z3.Length(self.stack0)
        st.assume(n > 0)
        self.last = self.stack0[n - 1]
        st.assume(self.is_(self.last, "string_literal"), self.val_(self.last) == self.path, z3.Not(TOpt(TStr).is_none(self.T.get(self.last, "value"))))
        p = self.path
        rooted = z3.PrefixOf(sv("/"), p)
        self.ref = z3.And(_or([z3.PrefixOf(sv(x), p) for x in ("/", "./", "../")]), z3.Not(z3.PrefixOf(sv("//"), p)), no(p, "?", "#"))
        self.file = z3.If(rooted, under("src/public/", rest(p)), NORM(join(DIR(self.rel), p)))
        self.url = z3.If(rooted, p, z3.Concat(sv("/"), PUB(self.file)))
        self.hash = self.hash_at(PUB(self.file))
        st.assume(z3.Implies(z3.And(self.ref, z3.Not(self.scan)), self.has(self.fs0, self.hash)), z3.Not(z3.PrefixOf(sv("/"), PUB(self.file))))
        return [self.me, S(TStr, p)], {}

    def hash_of(self):
        return self.hash

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        declined = isinstance(res, C) and res.v is False
        E.oblige(st, "the-tokens-read-are-as-they-were", self.stk(E, st) == self.stack0)
        E.oblige(st, "scan-depends-on-exactly-the-imported-file", self.added(E, st, "dependencies", self.dep0, [(z3.And(self.ref, self.scan), self.file)]))
        E.oblige(st, "build-refers-to-exactly-that-file", self.added(E, st, "children", self.ch0, [(z3.And(self.ref, z3.Not(self.scan)), self.file)]))
        E.oblige(st, "handled-imports-are-passed-over-once", z3.Implies(self.ref, self.flag(E, st)))
        if declined:
            E.oblige(st, "only-a-scan-of-a-local-import-changes-nothing", z3.And(self.ref, self.scan))
            return
        r = E.embed(st, res, self.TS)
        n = z3.Length(self.stack0)
        new = z3.Concat(z3.Extract(self.stack0, z3.IntVal(0), n - 1), z3.Unit(self.tok("string_literal", self.versioned(self.url))))
        E.oblige(st, "local-imports-carry-the-version-and-nothing-else-changes", z3.Implies(z3.And(self.ref, z3.Not(self.scan)), r == new))
        E.oblige(st, "a-scan-replaces-nothing", z3.Not(z3.And(self.ref, self.scan)))
        self.marked(E, st, r, self.stack0, z3.Not(self.ref))

    def marked(self, E, st, r, stack, cond):
        """a comment that says to pass over the import, then the import"""
        h = r[z3.IntVal(0)]
        n = z3.Length(r)
        E.oblige(st, "other-imports-only-get-a-comment-before", z3.Implies(cond, z3.And(n == z3.Length(stack) + 1, self.is_(h, "comment"), z3.Not(TOpt(TStr).is_none(self.T.get(h, "value"))), z3.PrefixOf(sv("PREPROCESSOR: ignore-import"), self.val_(h)), no(self.val_(h), "*/"), z3.Extract(r, z3.IntVal(1), n - 1) == stack)))
        E.oblige(st, "which-is-then-passed-over", z3.Implies(cond, self.flag(E, st) == self.skip0))


class JsBad(JsImport):
    fn = HI + ":HashImportsManipulator._mark_import_bad"
    title = "HashImportsManipulator._mark_import_bad"
    expect_paths = 1

    def setup(self, E, st):
        self.setup_js(E, st)
        st.assume(z3.Length(self.stack0) > 0)
        return [self.me, C("expected something")], {}

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        E.oblige(st, "the-tokens-read-are-as-they-were", self.stk(E, st) == self.stack0)
        self.marked(E, st, E.embed(st, res, self.TS), self.stack0, z3.BoolVal(True))

    def apply(self, E, st, args, kwargs):
        h = args[1] if len(args) > 1 else kwargs.get("hint", C(""))
        E.oblige(st, "the-hint-does-not-end-the-comment", B(isinstance(h, C) and "*/" not in h.v))
        return E.contract.ended(E, st, "other", None)


class JsImportUse(JsImport):
    def apply(self, E, st, args, kwargs):
        return E.contract.ended(E, st, "import", args[1])


# the import declarations of ECMAScript (no names that are as, from or import)
IMPORT, DEF, DEFC, STAR, STARAS, NAMED, OPEN, NAME, AS, ALIAS, FROM, DONE, DEAD = range(13)
RULES = [
    (IMPORT, "string_literal", DONE), (IMPORT, "identifier", DEF), (IMPORT, "asterisk", STAR), (IMPORT, "open_curly_bracket", OPEN),
    (DEF, "keyword_from", FROM), (DEF, "comma", DEFC), (DEFC, "asterisk", STAR), (DEFC, "open_curly_bracket", OPEN),
    (STAR, "keyword_as", STARAS), (STARAS, "identifier", NAMED), (NAMED, "keyword_from", FROM),
    (OPEN, "identifier", NAME), (OPEN, "close_curly_bracket", NAMED), (NAME, "keyword_as", AS), (NAME, "comma", OPEN), (NAME, "close_curly_bracket", NAMED),
    (AS, "identifier", ALIAS), (ALIAS, "comma", OPEN), (ALIAS, "close_curly_bracket", NAMED), (FROM, "string_literal", DONE),
]


class JsSkip(Js):
    """-> the next token that is none of those to pass over; at most white
    space is asked to be passed over"""
    fn = HI + ":HashImportsManipulator._skip_types"
    title = "HashImportsManipulator._skip_types"
    expect_paths = 1
    SKIP = ("whitespace", "line_terminator")

    def setup(self, E, st):
        self.setup_js(E, st)
        self.tok0 = self.stack0[z3.Length(self.stack0) - 1]
        st.assume(z3.Length(self.stack0) > 0, z3.Not(self.is_(self.tok0, "eof")))
        st.ghost["$read"] = S(TBool, z3.BoolVal(False))
        import vanillaplusjs.build.js.manips.hash_imports as m
        skip = C(frozenset({m.JSTokenType.whitespace, m.JSTokenType.line_terminator}))
        return [self.me, skip], {}

    def on_yield(self, E, st, v):
        now = self.stk(E, st)
        last = now[z3.Length(now) - 1]
        E.oblige(st, "asks-for-more-only-before-the-end", z3.Not(self.is_(last, "eof")))
        E.oblige(st, "passes-over-white-space-only", z3.Implies(st.ghost["$read"].e, self.is_(last, *self.SKIP)))
        st.ghost["$read"] = S(TBool, z3.BoolVal(True))
        t = self.T.fresh("token")
        st.assume(*self.valid(t))
        l = st.heap[self.me.lid].fields["stack"]
        st.heap[l.lid] = ListCell(seq=S(self.TS, z3.Concat(now, z3.Unit(t))))
        return [(st, S(self.T, t))]

    def candidates(self, E, lc):
        now = self.stk(E, lc.st)
        last = now[z3.Length(now) - 1]
        return [("some-token-read", z3.Length(now) > 0), ("white-space-so-far", z3.Implies(lc.st.ghost["$read"].e, self.is_(last, *self.SKIP))), ("not-at-the-end", z3.Not(self.is_(last, "eof"))), ("flag-unchanged", self.flag(E, lc.st) == self.flag(E, lc.entry))]

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        now = self.stk(E, st)
        E.oblige(st, "a-token-was-read", st.ghost["$read"].e)
        E.oblige(st, "the-token-is-the-last-one", E.embed(st, res, self.T) == now[z3.Length(now) - 1])
        E.oblige(st, "the-token-is-not-white-space", z3.Not(self.is_(E.embed(st, res, self.T), *self.SKIP)))
        E.oblige(st, "the-mark-stays", self.flag(E, st) == self.skip0)

    def apply(self, E, st, args, kwargs):
        c = E.contract  # the caller's
        skip = args[1]
        E.oblige(st, "passes-over-white-space-only", B(isinstance(skip, C) and {x.name for x in skip.v} == set(self.SKIP)))
        now = c.stk(E, st)
        E.oblige(st, "asks-for-more-only-before-the-end", z3.Not(c.is_(now[z3.Length(now) - 1], "eof")))
        r, t = c.TS.fresh("read"), c.T.fresh("token")
        st.assume(*c.valid(t), z3.Not(c.is_(t, *self.SKIP)), z3.Length(r) > 0, r[z3.Length(r) - 1] == t)
        l = st.heap[c.me.lid].fields["stack"]
        st.heap[l.lid] = ListCell(seq=S(c.TS, r))
        c.step(st, t)
        st.ghost["$yields"] = C(True)
        return [(st, S(c.T, t))]


class JsHandle(Js):
    fn = HI + ":HashImportsManipulator.handle"
    title = "HashImportsManipulator.handle"
    expect_paths = 6
    modular = (JsImportUse, JsBad, JsSkip)

    def setup(self, E, st):
        self.setup_js(E, st)
        self.tok0 = self.T.const("token")
        st.assume(*self.valid(self.tok0))
        st.heap[self.stack.lid] = ListCell(seq=S(self.TS, z3.Unit(self.tok0)))
        st.ghost["$at"] = S(TInt, z3.IntVal(IMPORT))
        st.ghost["$key"] = S(TBool, z3.BoolVal(True))  # the last token that counts is import or from
        st.ghost["$afterkey"] = S(TBool, z3.BoolVal(False))  # the one before it is
        st.ghost["$end"] = C(None)
        st.ghost["$yields"] = C(False)
        return [self.me, S(self.T, self.tok0)], {}

    def next(self, q, t):
        r = z3.IntVal(DEAD)
        for a, k, b in RULES:
            r = z3.If(z3.And(q == a, self.is_(t, k)), z3.IntVal(b), r)
        return r

    def on_yield(self, E, st, v):
        now = self.stk(E, st)
        last = now[z3.Length(now) - 1]
        E.oblige(st, "asks-for-more-only-before-the-end", z3.Not(self.is_(last, "eof")))
        t = self.T.fresh("token")
        st.assume(*self.valid(t))
        l = st.heap[self.me.lid].fields["stack"]
        st.heap[l.lid] = ListCell(seq=S(self.TS, z3.Concat(now, z3.Unit(t))))
        self.step(st, t)
        st.ghost["$yields"] = C(True)
        return [(st, S(self.T, t))]

    def step(self, st, t):
        g = st.ghost
        space = self.is_(t, "whitespace", "line_terminator")
        g["$at"], g["$afterkey"], g["$key"] = S(TInt, z3.If(space, g["$at"].e, self.next(g["$at"].e, t))), S(TBool, z3.If(space, g["$afterkey"].e, g["$key"].e)), S(TBool, z3.If(space, g["$key"].e, self.is_(t, "keyword_import", "keyword_from")))

    def ended(self, E, st, how, value):
        now = self.stk(E, st)
        last = now[z3.Length(now) - 1]
        r = S(self.TS, self.TS.fresh("answer"))
        st.ghost["$end"] = C((how, r.e))
        if value is not None:
            E.oblige(st, "the-path-is-that-of-the-last-token", z3.And(self.is_(last, "string_literal"), E.embed(st, value, TStr) == self.val_(last)))
        return [(st, st.alloc(ListCell(seq=r)))]

    def candidates(self, E, lc):
        g, g0 = lc.st.ghost, lc.entry.ghost
        now = self.stk(E, lc.st)
        last = now[z3.Length(now) - 1]
        out = [("some-token-read", z3.Length(now) > 0), ("not-at-the-end", z3.Not(self.is_(last, "eof")))]
        for k in ("$at", "$key", "$afterkey"):
            out.append((f"{k}-as-before", g[k].e == g0[k].e))
        out.append(("flag-unchanged", self.flag(E, lc.st) == self.flag(E, lc.entry)))
        q = g["$at"].e
        for nm, e, _ in lc.typed(self.T):
            out.append((f"{nm}-is-last", e == last))
            out += [(f"{nm}-valid", x) for x in self.valid(e)]
            for x in (NAMED, NAME):
                out.append((f"{nm}-closes-in-{x}", z3.Implies(self.is_(e, "close_curly_bracket"), z3.Or(q == x, q == DEAD))))
                out.append((f"{nm}-names-in-{x}", z3.Implies(self.is_(e, "identifier"), z3.Or(q == x, q == DEAD))))
            out.append((f"{nm}-fits", z3.Or(self.is_(e, "identifier", "close_curly_bracket"), q == DEAD)))
        return out

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        declined = isinstance(res, C) and res.v is False
        tok, TT = self.tok0, self.TT
        imp = self.is_(tok, "keyword_import")
        mark = z3.And(self.is_(tok, "comment"), z3.PrefixOf(sv("PREPROCESSOR: ignore-import"), self.val_(tok)))
        flag = self.flag(E, st)
        E.oblige(st, "imports-marked-to-be-ignored-are-left-alone", z3.Implies(z3.And(imp, self.skip0), z3.And(B(declined and not st.ghost["$yields"].v), z3.Not(flag))))
        E.oblige(st, "all-that-is-no-import-is-left-alone", z3.Implies(z3.Not(imp), z3.And(B(declined and not st.ghost["$yields"].v), flag == z3.Or(self.skip0, mark))))
        end = st.ghost["$end"].v
        if declined and end is None:
            E.oblige(st, "every-other-import-is-looked-at", z3.Not(z3.And(imp, z3.Not(self.skip0))))
            return
        E.oblige(st, "decided-once", B(end is not None))
        if end is None:
            return
        E.oblige(st, "the-decision-is-handed-back", E.embed(st, res, self.TS) == end[1])
        if end[0] == "import":
            E.oblige(st, "only-the-path-of-an-import-is-rewritten", st.ghost["$afterkey"].e)
        else:
            E.oblige(st, "no-import-declaration-is-passed-over", st.ghost["$at"].e == DEAD)


CONTRACTS = {"C08": [HtmlStart, HtmlContinueLink, HtmlContinueScript, CssStart, CssContinue, JsImport, JsBad, JsSkip, JsHandle]}
