"""C24: inline scripts and styles are built as if they were files."""
import builtins
import errno
import importlib
import os
import z3

from contracts.links import *  # noqa: F401,F403
from contracts.links import Attrs, Key, Links, NS, SSet, under
from vc import trusted
from vc.engine import B, _and, _or
from vc.values import *

OUTL = "vanillaplusjs.build.html.manips.outline"
OM = OUTL + ":OutlineManipulator"
trusted.ASSUME["C24"] = {
    "trusted": ["html5lib parses and serializes; attributes have no namespace", "os.path, os.remove, os.rmdir (which removes nothing but an empty folder), open and urllib.parse.urlencode", "str.strip and str.lower, used to compare a script's type"],
    "assumptions": ["the handlers of scripts and styles do what C09 says and write nothing below src", "the builder offers every token of an element the manipulator marked (C06), and html5lib gives the text of script and style elements as character tokens", "posix paths", "the project has no source of its own below src/public/js/gen or src/public/css/gen"],
}
STEM = z3.Function("without_extension", z3.StringSort(), z3.StringSort())
SEPS = z3.Function("separators_in", z3.StringSort(), z3.IntSort())
Plain = TMap(TStr, TStr)
TB = TBag(TStr)
JS = ["", "module", "text/javascript", "application/javascript", "text/ecmascript", "application/ecmascript", "application/x-javascript", "application/x-ecmascript", "text/x-javascript", "text/x-ecmascript", "text/jscript", "text/livescript"]
q_ = z3.String("any_entry")


class Handler_:
    """stands for the handler of scripts or of styles"""


class HandlerFails(Exception):
    pass


class OtherOSError(OSError):
    """an OSError that is none of its subclasses"""


class Outline(Links):
    def begin(self, E, st):
        super().begin(E, st)
        self.where = z3.String("page")
        st.assume(self.where != sv(""), z3.Not(z3.PrefixOf(sv("/"), self.where)), z3.Not(z3.SuffixOf(sv("/"), self.where)))
        self.n = {"js": z3.Int("scripts"), "css": z3.Int("styles")}
        st.assume(*[v >= 0 for v in self.n.values()])
        st.ghost["$made"] = C(None)

    def folder_of(self, kind, top="src/public/"):
        return z3.Concat(sv(f"{top}{kind}/gen/"), self.where)

    def path_of(self, kind, n, top="src/public/"):
        return z3.Concat(self.folder_of(kind, top), sv("/"), z3.IntToStr(n), sv("." + kind))

    def fields(self):
        s = lambda e: S(TStr, e)
        return {"context": self.ctx, "relpath": s(self.rel), "mode": self.mode, "js_handler": self.js, "css_handler": self.css,
                "script_outline_count": S(TInt, self.n["js"]), "style_outline_count": S(TInt, self.n["css"]),
                "script_src_folder": s(self.folder_of("js")), "style_src_folder": s(self.folder_of("css")),
                "script_out_folder": s(self.folder_of("js", "out/www/")), "style_out_folder": s(self.folder_of("css", "out/www/")),
                "outlining": NONE, "outlining_to_path": NONE, "outlining_to": NONE, "start_tag_attrs": NONE}

    def element(self, E, st):
        """some token, with what makes it a script or a style"""
        self.kind, self.tag = z3.String("type"), z3.String("name")
        self.attrs = Attrs.const("attributes")
        k = z3.Const("k", Key.sort())
        st.assume(z3.ForAll([k], z3.Implies(z3.Select(Attrs.has(self.attrs), k), NS.is_none(Key.get(k, 0))), patterns=[z3.Select(Attrs.has(self.attrs), k)]))
        data = st.alloc(DictCell(sym=S(Attrs, self.attrs)))
        self.node = st.alloc(DictCell(items={"type": S(TStr, self.kind), "name": S(TStr, self.tag), "data": data}))
        has = lambda n: z3.Select(Attrs.has(self.attrs), self.key(n))
        t = LOWER(STRIP(z3.If(has("type"), z3.Select(Attrs.get(self.attrs), self.key("type")), sv(""))))
        st.assume(LOWER(sv("")) == sv(""), STRIP(sv("")) == sv(""))
        script = z3.And(self.kind == sv("StartTag"), self.tag == sv("script"), z3.Not(has("src")))
        self.js_type = _or([t == sv(x) for x in JS])
        self.open_type = _or([t == sv(f"text/javascript1.{i}") for i in range(6)])  # scripts too, but nobody writes them
        self.script = script
        self.style = z3.And(self.kind == sv("StartTag"), self.tag == sv("style"))

    def key(self, name):
        return Key.mk(NS.none(), sv(name) if isinstance(name, str) else name)

    def stubs(self, st):
        self.js = st.alloc(ObjCell(Handler_, {"of": C("js")}))
        self.css = st.alloc(ObjCell(Handler_, {"of": C("css")}))

    def str_hook(self, E, st, s, name, args, kwargs):
        if name == "count" and len(args) == 1 and isinstance(args[0], C) and args[0].v == "/":
            return [(st, S(TInt, SEPS(E.embed(st, s, TStr))))]
        return super().str_hook(E, st, s, name, args, kwargs)

    def getattr_hook(self, E, st, v, name):
        if isinstance(v, Lazy) and v.kind == "exc" and name == "errno":
            return [(st, S(TInt, z3.Int("errno")))]
        return None

    def models(self):
        out = super().models()
        io = importlib.import_module("vanillaplusjs.build.ioutil")
        open0 = out[builtins.open]

        def made(E, st, a, k):
            st.ghost["$made"] = S(TStr, E.embed(st, a[0], TStr))
            return [(st, NONE)]

        def open_(E, st, a, k):
            mode = k.get("mode", a[1] if len(a) > 1 else C("r"))
            if not isinstance(mode, C) or mode.v != "w":
                return open0(E, st, a, k)
            p, m = E.embed(st, a[0], TStr), st.ghost["$made"]
            E.oblige(st, "the-folder-is-there", B(False) if isinstance(m, C) else z3.And(m.e == self.at(self.folder_of(self.of)), p == self.at(self.path_of(self.of, self.n[self.of] + 1))))
            self.put(st, p, TEXT(sv("")))
            return [(st, st.alloc(ObjCell(File, {"path": S(TStr, p), "mode": C("w"), "text": S(TStr, sv(""))})))]

        def remove(E, st, a, k):
            p = E.embed(st, a[0], TStr)
            f = self.fs(st)
            E.oblige(st, "removes-only-what-it-wrote", z3.And(p == self.at(self.path), self.has(f, p)))
            st.ghost["$disk"] = S(FS, FS.mk(z3.Store(FS.has(f), p, z3.BoolVal(False)), FS.get(f)))
            return [(st, NONE)]

        def rmdir(E, st, a, k):
            out = [(st, NONE)]
            for c in (FileNotFoundError, PermissionError, OtherOSError):
                out.append((st.copy(), Raised(c)))
            return out

        def splitext(E, st, a, k):
            p = E.embed(st, a[0], TStr)
            st.assume(z3.PrefixOf(STEM(p), p))
            return [(st, Tup([S(TStr, STEM(p)), S(TStr, z3.SubString(p, z3.Length(STEM(p)), z3.Length(p)))]))]
        out.update({io.makedirs_safely: made, os.makedirs: made, builtins.open: open_, os.remove: remove, os.unlink: remove, os.rmdir: rmdir, os.path.splitext: splitext})
        return out

    def field(self, st, name):
        return st.heap[self.me.lid].fields[name]

    def same_fields(self, E, st, but=()):
        f, f0 = st.heap[self.me.lid].fields, self.f0
        ok = []
        for n, v in f0.items():
            if n in but:
                continue
            w = f.get(n)
            if isinstance(v, S):
                ok.append(E.embed(st, w, v.t) == v.e)
            elif isinstance(v, L):
                ok.append(B(isinstance(w, L) and w.lid == v.lid))
            else:
                ok.append(B(isinstance(w, C) and w.v == v.v))
        E.oblige(st, "nothing-else-of-its-state-changes", z3.And(*ok))


class Init(Outline):
    fn = OUTL + ":OutlineManipulator.__init__"
    title = "OutlineManipulator.__init__"
    expect_paths = 2

    def setup(self, E, st):
        super().begin(E, st)
        m = importlib.import_module(OUTL)
        self.stubs(st)
        st.assume(self.rel == z3.Concat(sv("src/public/"), self.where, sv(".html")), STEM(self.rel) == z3.Concat(sv("src/public/"), self.where))
        self.me = st.alloc(ObjCell(m.OutlineManipulator, {}))
        return [self.me, self.ctx, S(TStr, self.rel), self.mode, self.js, self.css], {}

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        f = st.heap[self.me.lid].fields
        for name, want in (("script_src_folder", self.folder_of("js")), ("style_src_folder", self.folder_of("css")), ("script_out_folder", self.folder_of("js", "out/www/")), ("style_out_folder", self.folder_of("css", "out/www/"))):
            E.oblige(st, "a-folder-of-the-page's-own", E.embed(st, f[name], TStr) == want)
        E.oblige(st, "nothing-outlined-yet", z3.And(B(all(isinstance(f[n], C) and f[n].v is None for n in ("outlining", "outlining_to", "outlining_to_path", "start_tag_attrs"))), E.embed(st, f["script_outline_count"], TInt) == 0, E.embed(st, f["style_outline_count"], TInt) == 0))
        E.oblige(st, "the-handlers-it-was-given", B(f["js_handler"].lid == self.js.lid and f["css_handler"].lid == self.css.lid and f["context"].lid == self.ctx.lid))
        E.oblige(st, "the-page-and-mode-it-was-given", z3.And(E.embed(st, f["relpath"], TStr) == self.rel, E.embed(st, f["mode"], TStr) == self.mode.e))
        E.oblige(st, "no-file-is-touched", self.fs(st) == self.fs0)


class Start(Outline):
    fn = OUTL + ":OutlineManipulator.start_mark"
    title = "OutlineManipulator.start_mark"

    def setup(self, E, st):
        self.begin(E, st)
        self.stubs(st)
        self.element(E, st)
        self.f0 = self.fields()
        self.me = st.alloc(ObjCell(importlib.import_module(OUTL).OutlineManipulator, self.f0))
        return [self.me, self.node], {}

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        r = B(E.truth(st, res))
        E.oblige(st, "inline-scripts-and-styles-and-nothing-else-are-marked", z3.Or(z3.And(self.script, self.open_type), r == z3.Or(self.style, z3.And(self.script, self.js_type))))
        self.same_fields(E, st)
        E.oblige(st, "no-file-is-touched", self.fs(st) == self.fs0)
        E.oblige(st, "the-tag-is-left-as-it-is", E.embed(st, st.heap[self.node.lid].items["data"], Attrs) == self.attrs)


class Begin(Outline):
    fn = OUTL + ":OutlineManipulator.continue_mark"
    title = "OutlineManipulator.continue_mark[start of a script]"
    of = "js"

    def setup(self, E, st):
        self.begin(E, st)
        self.stubs(st)
        self.element(E, st)
        st.assume(z3.And(self.script, self.js_type) if self.of == "js" else self.style)
        self.f0 = self.fields()
        self.me = st.alloc(ObjCell(importlib.import_module(OUTL).OutlineManipulator, self.f0))
        return [self.me, self.node], {}

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        f = st.heap[self.me.lid].fields
        E.oblige(st, "waits-for-the-end-tag", B(isinstance(res, C) and res.v is None))
        what = f["outlining"]
        E.oblige(st, "knows-what-it-outlines", E.embed(st, what, TStr) == sv("script" if self.of == "js" else "style"))
        n = {k: v + (1 if k == self.of else 0) for k, v in self.n.items()}
        E.oblige(st, "counts-it", z3.And(E.embed(st, f["script_outline_count"], TInt) == n["js"], E.embed(st, f["style_outline_count"], TInt) == n["css"]))
        path = self.path_of(self.of, n[self.of])
        E.oblige(st, "to-the-next-file-of-the-page", E.embed(st, f["outlining_to_path"], TStr) == path)
        fl = f["outlining_to"]
        ok = isinstance(fl, L) and st.heap[fl.lid].cls is File and st.heap[fl.lid].fields["mode"].v == "w"
        E.oblige(st, "opened-for-writing", z3.And(st.heap[fl.lid].fields["path"].e == self.at(path), st.heap[fl.lid].fields["text"].e == sv("")) if ok else B(False))
        E.oblige(st, "the-file-is-empty", self.fs(st) == self.stored(self.fs0, self.at(path), TEXT(sv(""))))
        new, k = E.embed(st, f["start_tag_attrs"], Plain), z3.String("any_key")
        E.oblige(st, "the-attributes-are-kept", z3.And(z3.Select(Plain.has(new), k) == z3.Select(Attrs.has(self.attrs), self.key(k)), z3.Implies(z3.Select(Plain.has(new), k), z3.Select(Plain.get(new), k) == z3.Select(Attrs.get(self.attrs), self.key(k)))))
        self.same_fields(E, st, ("outlining", "outlining_to", "outlining_to_path", "start_tag_attrs", "script_outline_count", "style_outline_count"))


class BeginStyle(Begin):
    of = "css"
    title = "OutlineManipulator.continue_mark[start of a style]"


class Inside(Outline):
    """while an element is being outlined"""
    of = "js"

    def begin(self, E, st):
        super().begin(E, st)
        self.stubs(st)
        st.assume(self.n[self.of] >= 1)
        self.path = self.path_of(self.of, self.n[self.of])
        self.text = z3.String("text_so_far")
        self.fs1 = self.fs0
        st.assume(self.has(self.fs0, self.at(self.path)), self.get(self.fs0, self.at(self.path)) == TEXT(self.text))
        self.file = st.alloc(ObjCell(File, {"path": S(TStr, self.at(self.path)), "mode": C("w"), "text": S(TStr, self.text)}))
        self.plain = Plain.const("start_tag_attrs")
        attrs = st.alloc(DictCell(sym=S(Plain, self.plain)))
        self.f0 = {**self.fields(), "outlining": C("script" if self.of == "js" else "style"), "outlining_to_path": S(TStr, self.path), "outlining_to": self.file, "start_tag_attrs": attrs}
        self.me = st.alloc(ObjCell(importlib.import_module(OUTL).OutlineManipulator, self.f0))


class Text(Inside):
    fn = OUTL + ":OutlineManipulator.continue_mark"
    title = "OutlineManipulator.continue_mark[text]"

    def setup(self, E, st):
        self.begin(E, st)
        self.data = z3.String("data")
        ty = z3.String("type")
        st.assume(z3.Or(ty == sv("Characters"), ty == sv("SpaceCharacters")))
        node = st.alloc(DictCell(items={"type": S(TStr, ty), "data": S(TStr, self.data)}))
        return [self.me, node], {}

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        E.oblige(st, "waits-for-the-end-tag", B(isinstance(res, C) and res.v is None))
        E.oblige(st, "the-text-is-appended", self.fs(st) == self.stored(self.fs0, self.at(self.path), TEXT(z3.Concat(self.text, self.data))))
        self.same_fields(E, st)


class TextStyle(Text):
    of = "css"
    title = "OutlineManipulator.continue_mark[text of a style]"


class End(Inside):
    fn = OUTL + ":OutlineManipulator.continue_mark"
    scanning = True
    expect_paths = 2

    def begin(self, E, st):
        super().begin(E, st)

    def setup(self, E, st):
        E.use_bag(TB)
        self.begin(E, st)
        f = st.heap[self.me.lid].fields
        self.names = ("dependencies", "produces") if self.scanning else ("children", "produced", "reused")
        self.sets0 = {n: SSet.const(n + "_so_far") for n in self.names}
        self.got = {n: TB.const(n + "_of_the_handler") for n in self.names}
        new = {n: st.alloc(SetCell(sym=S(SSet, self.sets0[n]))) for n in self.names}
        none = {n: NONE for n in ("dependencies", "produces", "children", "produced", "reused") if n not in new}
        self.f0 = {**f, **new, **none, "mode": C("scan" if self.scanning else "build")}
        st.heap[self.me.lid] = ObjCell(st.heap[self.me.lid].cls, self.f0)
        st.ghost["$asked"] = C(0)
        name = sv("script" if self.of == "js" else "style")
        node = st.alloc(DictCell(items={"type": C("EndTag"), "name": S(TStr, name)}))
        return [self.me, node], {}

    def hash_of(self):
        return self.at(z3.Concat(self.path_of(self.of, self.n[self.of], "out/www/"), sv(".hash")))

    def method_hook(self, E, st, recv, name, args, kwargs):
        if isinstance(recv, L) and isinstance(st.heap[recv.lid], ObjCell) and st.heap[recv.lid].cls is Handler_:
            if name not in ("scan_file", "build_file"):
                raise Unsupported("handler's " + name)
            a = list(args) + [kwargs.get("context"), kwargs.get("relpath")][len(args):]
            p = E.embed(st, a[1], TStr)
            E.oblige(st, "the-handler-of-its-kind-in-this-mode-once", B(st.ghost["$asked"].v == 0 and st.heap[recv.lid].fields["of"].v == self.of and (name == "scan_file") == self.scanning and isinstance(a[0], L) and a[0].lid == self.ctx.lid))
            E.oblige(st, "is-given-the-file-with-all-of-the-text", z3.And(p == self.path, self.has(self.fs(st), self.at(p)), self.get(self.fs(st), self.at(p)) == TEXT(self.text)))
            st.ghost["$asked"] = C(1)
            bad = st.copy()
            if not self.scanning:
                new = FS.const(fresh_name("disk_after"))
                old = self.fs(st)
                x = z3.String(fresh_name("p"))
                for s in (st, bad):
                    s.assume(z3.ForAll([x], z3.Implies(z3.Not(z3.PrefixOf(z3.Concat(self.folder, sv("/out/")), x)), z3.And(z3.Select(FS.has(new), x) == z3.Select(FS.has(old), x), z3.Select(FS.get(new), x) == z3.Select(FS.get(old), x))), patterns=[z3.Select(FS.has(new), x), z3.Select(FS.get(new), x)]))
                    s.ghost["$disk"] = S(FS, new)
                st.assume(self.has(new, self.hash_of()))
            mod = importlib.import_module("vanillaplusjs.build." + ("scan_file_result" if self.scanning else "build_file_result"))
            cls = mod.ScanFileResult if self.scanning else mod.BuildFileResult
            fields = {n: st.alloc(ListCell(seq=S(TB, self.got[n]))) for n in self.names}
            if self.scanning:
                fields["placeholders"] = NONE
            return [(st, st.alloc(ObjCell(cls, fields))), (bad, Raised(HandlerFails))]
        return super().method_hook(E, st, recv, name, args, kwargs)

    def candidates(self, E, lc):
        out = []
        if lc.it is None or lc.it.bag is None or lc.it.bag.t != TB:
            return out
        seen = z3.Select(TB.fns()[4](lc.it.bag.e, lc.idx), q_) > 0
        for nm, e, e0 in [x for x in lc.typed(SSet) if x[2] is not None]:
            out.append((f"{nm}-takes-all", z3.ForAll([q_], z3.Select(e, q_) == z3.Or(z3.Select(e0, q_), seen))))
            out.append((f"{nm}-stays", e == e0))
        return out

    def post(self, E, pre, st, res):
        x = z3.String("any_file")
        gone = z3.Not(self.has(self.fs(st), self.at(self.path)))
        E.oblige(st, "the-source-is-gone-again", gone)
        outside = z3.And(x != self.at(self.path), z3.Not(z3.PrefixOf(z3.Concat(self.folder, sv("/out/")), x)))
        E.oblige(st, "no-other-file-is-touched", z3.Implies(outside, z3.And(self.has(self.fs(st), x) == self.has(self.fs0, x), self.get(self.fs(st), x) == self.get(self.fs0, x))))
        if isinstance(res, Raised):
            E.oblige(st, "fails-only-when-the-handler-or-the-system-does", z3.Or(B(res.cls is HandlerFails), z3.And(B(res.cls is OtherOSError), z3.Int("errno") != errno.ENOTEMPTY)))
            return
        f = st.heap[self.me.lid].fields
        bag = TB.fns()[2]
        for n in self.names:
            E.oblige(st, f"takes-over-the-{n}", z3.Select(E.embed(st, f[n], SSet), q_) == z3.Or(z3.Select(self.sets0[n], q_), z3.Select(bag(self.got[n]), q_) > 0))
        E.oblige(st, "ready-for-the-next", B(isinstance(f["outlining"], C) and f["outlining"].v is None))
        self.same_fields(E, st, ("outlining", "outlining_to", "outlining_to_path", "start_tag_attrs") + self.names)
        k, toks = E.list_get(st, res)
        want = [("StartTag", "script"), ("EndTag", "script")] if self.of == "js" else [("EmptyTag", "link")]
        E.oblige(st, "replaced-by-an-element-that-refers-to-a-file", B(k == "items" and len(toks) == len(want)))
        if not (k == "items" and len(toks) == len(want)):
            return
        cells = [st.heap[t.lid].items for t in toks]
        E.oblige(st, "a-script-or-a-link", z3.And(*[z3.And(E.embed(st, c["type"], TStr) == sv(t), E.embed(st, c["name"], TStr) == sv(n)) for c, (t, n) in zip(cells, want)]))
        new, a = E.embed(st, cells[0]["data"], Attrs), z3.Const("any_key", Key.sort())
        name = Key.get(a, 1)
        url = z3.Concat(sv(f"/{self.of}/gen/"), self.where, sv("/"), z3.IntToStr(self.n[self.of]), sv("." + self.of))
        url = z3.Concat(url, sv("?"), sv("v=tmp&pv=1") if self.scanning else QUERY(TXT(self.version)))
        given = {"src": url} if self.of == "js" else {"href": url, "rel": sv("stylesheet")}
        has, val = z3.Select(Plain.has(self.plain), name), z3.Select(Plain.get(self.plain), name)
        for g, v in given.items():
            has, val = z3.Or(name == sv(g), has), z3.If(name == sv(g), v, val)
        E.oblige(st, "with-its-attributes-and-the-reference", z3.And(z3.Select(Attrs.has(new), a) == z3.And(NS.is_none(Key.get(a, 0)), has), z3.Implies(z3.Select(Attrs.has(new), a), z3.Select(Attrs.get(new), a) == val)))


class Result(Outline):
    """what the page's handler is told"""
    fn = OUTL + ":OutlineManipulator.scan_result"
    title = "OutlineManipulator.scan_result"
    names = ("dependencies", "produces")

    def setup(self, E, st):
        E.use_bag(TB)
        self.begin(E, st)
        self.stubs(st)
        self.sets0 = {n: SSet.const(n + "_so_far") for n in self.names}
        self.me = st.alloc(ObjCell(importlib.import_module(OUTL).OutlineManipulator, {**self.fields(), **{n: st.alloc(SetCell(sym=S(SSet, self.sets0[n]))) for n in self.names}}))
        return [self.me], {}

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        f = st.heap[res.lid].fields
        for n in self.names:
            k, v = E.list_get(st, f[n])
            has = z3.Contains(v.e, z3.Unit(q_)) if isinstance(v.t, TSeq) else z3.Select(v.t.fns()[2](v.e), q_) > 0
            E.oblige(st, f"reports-its-{n}", has == z3.Select(self.sets0[n], q_))


class Built(Result):
    fn = OUTL + ":OutlineManipulator.build_result"
    title = "OutlineManipulator.build_result"
    names = ("children", "produced", "reused")


def _ends():
    out = []
    for of in ("js", "css"):
        for scanning in (True, False):
            out.append(type(f"End{of}{scanning}", (End,), {"of": of, "scanning": scanning, "title": f"OutlineManipulator.continue_mark[end of {'script' if of == 'js' else 'style'}, {'scan' if scanning else 'build'}]"}))
    return out


CONTRACTS = {"C24": [Init, Start, Begin, BeginStyle, Text, TextStyle, *_ends(), Result, Built]}
