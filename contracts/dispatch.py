"""C09: which handler a file goes to, and what the handlers of pages, styles
and scripts report."""
import importlib
import z3

from contracts.disk import *  # noqa: F401,F403
from contracts.handlers import CopyTarget
from vc import trusted
from vc.contracts import Contract
from vc.engine import B, _or
from vc.values import *

V = "vanillaplusjs.build."
H = V + "handlers."
trusted.ASSUME["C09"] = {
    "trusted": ["os, hashlib and base64 do what they say", "image_glue.handles_file answers the same for the same file during a build"],
    "assumptions": ["posix paths; the project folder's path does not end in a slash", "what a manipulator reports is arbitrary here (C08, C18, C22 and the bounded check say what it is); manipulate_and_serialize writes the file it is told to and reads the one it is told to (C06)"],
}
NAMES = ["js_constants", "image_glue", "html", "css", "js", "copy_and_hash"]
TB = TBag(TStr)
q_ = z3.String("any_entry")


class Dispatch(Disk):
    expect_paths = 6
    verb = "scan_file"
    fn = V + "scan_file:scan_file"
    title = "scan_file"

    def setup(self, E, st):
        self.disk(st)
        self.rel, self.const = z3.String("relpath"), z3.String("constants_relpath")
        k = importlib.import_module(V + "build_context").JSConstants
        self.consts = st.alloc(ObjCell(k, {"relpath": S(TStr, self.const)}))
        self.glue = z3.Bool("is_image_glue")
        self.delayed = z3.Bool("delayed")
        D = z3.Const("delay_files", TB.sort())
        self.ctx = self.context(st, js_constants=self.consts, delay_files=S(TB, D))
        E.use_bag(TB)
        st.ghost["$to"] = C(())
        return [self.ctx, S(TStr, self.rel)], {}

    def models(self):
        out = super().models()

        def to(name):
            def model(E, st, a, k):
                ctx, rel = (list(a) + [None, None])[:2]
                ctx = ctx if ctx is not None else k.get("context", k.get("build_context"))
                rel = rel if rel is not None else k["relpath"]
                E.oblige(st, "hands-on-the-file-it-was-given", z3.And(B(ctx is self.ctx or isinstance(ctx, L) and ctx.lid == self.ctx.lid), E.embed(st, rel, TStr) == self.rel))
                st.ghost["$to"] = C(st.ghost["$to"].v + (name,))
                return [(st, C(("answer of", name)))]
            return model
        for n in NAMES:
            out[getattr(importlib.import_module(H + n), self.verb)] = to(n)
        out[importlib.import_module(H + "image_glue").handles_file] = lambda E, st, a, k: [(st, S(TBool, self.glue))]
        import time
        out[time.sleep] = lambda E, st, a, k: [(st, NONE)]
        return out

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        to = st.ghost["$to"].v
        E.oblige(st, "exactly-one-handler", B(len(to) == 1))
        if len(to) != 1:
            return
        E.oblige(st, "the-handler's-answer-is-handed-back", B(isinstance(res, C) and res.v == ("answer of", to[0])))
        ends = lambda x: z3.SuffixOf(sv(x), self.rel)
        want = z3.If(self.rel == self.const, 0, z3.If(self.glue, 1, z3.If(ends(".html"), 2, z3.If(ends(".css"), 3, z3.If(ends(".js"), 4, 5)))))
        E.oblige(st, "the-handler-of-this-kind-of-file", want == NAMES.index(to[0]))
        E.oblige(st, "nothing-is-written", self.fs(st) == self.fs0)


class BuildDispatch(Dispatch):
    verb = "build_file"
    fn = V + "build_file:build_file"
    title = "build_file"


# --------------------------------------------------- pages, styles, scripts
class Manip:
    """stands for one manipulator of a document"""


MANIPS = {
    "html": [("html.manips.link_rel_canonical", "LinkRelCanonicalManipulator"), ("html.manips.link_hash", "LinkHash"), ("html.manips.images.manip", "ImagesManipulator"), ("html.manips.outline", "OutlineManipulator"), ("html.manips.template", "TemplateManipulator")],
    "css": [("css.manips.nest", "NestManipulator"), ("css.manips.icons.manip", "IconManipulator"), ("css.manips.outline_image_data", "OutlineImageDataManipulator"), ("css.manips.version_urls", "VersionURLsManipulator")],
    "js": [("js.manips.type_hints", "TypeHintsManipulator"), ("js.manips.hash_imports", "HashImportsManipulator")],
}
OUT = z3.Function("document_written", z3.StringSort(), Content.sort(), Content.sort())


class Kind(Disk):
    kind = "css"
    mode = "scan"
    expect_paths = 3
    modular = (CopyTarget,)
    timeout = 15.0

    def prepare(self, E):
        E.use_bag(TB)

    def setup(self, E, st):
        self.disk(st)
        self.rel = z3.String("relpath")
        self.ctx = self.context(st)
        st.assume(z3.Not(z3.PrefixOf(sv("/"), self.rel)), self.has(self.fs0, self.at(self.rel)))
        self.classes = self.known(E, st)
        self.lists = {c: {f: TB.const(f"{c.__name__}_{f}") for f in ("dependencies", "produces", "children", "produced", "reused")} for c in self.classes}
        st.ghost["$done"] = C(False)
        st.ghost["$asked"] = C(())
        return [self.ctx, S(TStr, self.rel)], {}

    def known(self, E, st):
        return [getattr(importlib.import_module(V + m), c) for m, c in MANIPS[self.kind]]

    def call_hook(self, E, st, f, args, kwargs):
        if isinstance(f, C) and isinstance(f.v, type) and f.v in self.classes:
            a = list(args) + [kwargs.get(x) for x in ("context", "relpath", "mode")[len(args):]]
            E.oblige(st, "the-manipulators-work-on-this-file-in-this-mode", z3.And(B(isinstance(a[0], L) and a[0].lid == self.ctx.lid), E.embed(st, a[1], TStr) == self.rel, B(isinstance(a[2], C) and a[2].v == self.mode)))
            return [(st, st.alloc(ObjCell(Manip, {"of": C(f.v)})))]
        return super().call_hook(E, st, f, args, kwargs)

    def method_hook(self, E, st, recv, name, args, kwargs):
        if isinstance(recv, L) and isinstance(st.heap[recv.lid], ObjCell) and st.heap[recv.lid].cls is Manip:
            c = st.heap[recv.lid].fields["of"].v
            if name not in ("scan_result", "build_result"):
                raise Unsupported("manipulator's " + name)
            E.oblige(st, "asked-after-the-document-was-read", B(st.ghost["$done"].v))
            E.oblige(st, "asked-for-what-it-has", B((name == "scan_result") == (self.mode == "scan")))
            st.ghost["$asked"] = C(st.ghost["$asked"].v + (c,))
            fs = ("dependencies", "produces") if name == "scan_result" else ("children", "produced", "reused")
            cls = importlib.import_module(V + ("scan_file_result" if name == "scan_result" else "build_file_result"))
            cls = cls.ScanFileResult if name == "scan_result" else cls.BuildFileResult
            fields = {f: st.alloc(ListCell(seq=S(TB, self.lists[c][f]))) for f in fs}
            if name == "scan_result":
                fields["placeholders"] = NONE
            return [(st, st.alloc(ObjCell(cls, fields)))]
        return super().method_hook(E, st, recv, name, args, kwargs)

    def models(self):
        out = super().models()

        def serialize(E, st, a, k):
            a = list(a) + [None] * 3
            infile, outfile, manips = (a[i] if a[i] is not None else k.get(n) for i, n in enumerate(("infile", "outfile", "manipulators")))
            p = E.embed(st, infile, TStr)
            E.oblige(st, "reads-the-file-once", z3.And(B(not st.ghost["$done"].v), p == self.at(self.rel)))
            kd, items = E.list_get(st, manips)
            E.oblige(st, "with-every-manipulator-in-order", B(kd == "items" and [st.heap[x.lid].fields["of"].v for x in items] == self.classes))
            st.ghost["$done"] = C(True)
            none = isinstance(outfile, C) and outfile.v is None
            E.oblige(st, "a-scan-writes-nothing-a-build-does", B(none == (self.mode == "scan")))
            if not none:
                o = E.embed(st, outfile, TStr)
                E.oblige(st, "written-where-it-is-published", o == self.at(self.target()))
                self.put(st, o, OUT(self.rel, self.get(self.fs0, p)))
            return [(st, NONE)]
        out[importlib.import_module(V + self.kind + ".manipulate_and_serialize").manipulate_and_serialize] = serialize
        return out

    def target(self):
        return z3.Concat(sv("out/www/"), z3.SubString(self.rel, 11, z3.Length(self.rel) - 11))

    def handled(self):
        return z3.And(z3.SuffixOf(sv("." + self.kind), self.rel), z3.PrefixOf(sv("src/public/"), self.rel))

    def member(self, E, st, v):
        k, x = E.list_get(st, v)
        if k == "items":
            es = [E.embed(st, y, TStr) for y in x]
            return lambda t: _or([e == t for e in es]) if es else z3.BoolVal(False)
        bag = x.t.fns()[2]
        return lambda t: z3.Select(bag(x.e), t) >= 1

    def any_of(self, field, t):
        bag = TB.fns()[2]
        return _or([z3.Select(bag(self.lists[c][field]), t) >= 1 for c in self.classes])

    def candidates(self, E, lc):
        out = []
        if lc.it is None or lc.it.bag is None or lc.it.bag.t != TB:
            return out
        pb = TB.fns()[4](lc.it.bag.e, lc.idx)
        sets = [x for x in lc.typed(TSet(TStr)) if x[2] is not None]
        seen = z3.Select(pb, q_) > 0
        for nm, e, e0 in sets:
            has, had = z3.Select(e, q_), z3.Select(e0, q_)
            out.append((f"{nm}-takes-all", z3.ForAll([q_], has == z3.Or(had, seen))))
            for n2, f, f0 in sets:
                if n2 != nm:
                    out.append((f"{nm}-takes-what-{n2}-lacks", z3.ForAll([q_], has == z3.Or(had, z3.And(seen, z3.Not(z3.Select(f, q_)))))))
            out.append((f"{nm}-stays", e == e0))
        return out

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        f = st.heap[res.lid].fields
        mem = {n: self.member(E, st, v) for n, v in f.items() if n != "placeholders"}
        done = st.ghost["$done"].v
        t, th = self.target(), z3.Concat(self.target(), sv(".hash"))
        E.oblige(st, "exactly-the-public-files-of-its-kind", B(done) == self.handled())
        if not done:
            for n, m in mem.items():
                E.oblige(st, f"no-{n}-else", z3.Not(m(q_)))
            E.oblige(st, "nothing-is-written", self.fs(st) == self.fs0)
            return
        E.oblige(st, "every-manipulator-is-asked-once", B(sorted(c.__name__ for c in st.ghost["$asked"].v) == sorted(c.__name__ for c in self.classes)))
        own = z3.Or(q_ == t, q_ == th)
        if self.mode == "scan":
            E.oblige(st, "depends-on-all-the-manipulators-name", mem["dependencies"](q_) == self.any_of("dependencies", q_))
            E.oblige(st, "announces-all-the-manipulators-do-and-the-document", mem["produces"](q_) == z3.Or(own, self.any_of("produces", q_)))
            E.oblige(st, "nothing-is-written", self.fs(st) == self.fs0)
            return
        had = self.has(self.fs0, self.at(th))
        made = z3.Or(q_ == t, z3.And(q_ == th, z3.Not(had)), self.any_of("produced", q_))
        kept = z3.Or(z3.And(q_ == th, had), self.any_of("reused", q_))
        E.oblige(st, "refers-to-all-the-manipulators-name", mem["children"](q_) == self.any_of("children", q_))
        E.oblige(st, "reports-all-that-is-produced", mem["produced"](q_) == made)
        E.oblige(st, "reports-all-that-is-reused", z3.And(z3.Implies(kept, z3.Or(mem["reused"](q_), made)), z3.Implies(mem["reused"](q_), kept)))
        a, T, TH = self.fs(st), self.at(t), self.at(th)
        doc = OUT(self.rel, self.get(self.fs0, self.at(self.rel)))
        E.oblige(st, "the-document-is-what-the-manipulators-made-of-the-file", z3.And(self.has(a, T), self.get(a, T) == doc))
        E.oblige(st, "the-hash-is-that-of-the-document", z3.Implies(z3.Not(had), z3.And(self.has(a, TH), self.get(a, TH) == TEXT(B64(HASH(doc))))))
        E.oblige(st, "no-other-file-is-touched", z3.Implies(z3.And(q_ != T, q_ != TH), z3.And(self.has(a, q_) == self.has(self.fs0, q_), self.get(a, q_) == self.get(self.fs0, q_))))


def _kinds():
    out = []
    for k in ("html", "css", "js"):
        for mode in ("scan", "build"):
            n = f"{k.capitalize()}{mode.capitalize()}"
            out.append(type(n, (Kind,), {"kind": k, "mode": mode, "fn": f"{H}{k}:{mode}_file", "title": f"handlers.{k}.{mode}_file"}))
    return out


CONTRACTS = {"C09": [Dispatch, BuildDispatch, *_kinds()]}
