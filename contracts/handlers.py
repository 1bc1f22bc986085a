"""C20: lines marked as type hints."""
import importlib
import z3

from vc.contracts import Contract
from vc.engine import B, _and, _or
from vc.values import *
from vc import trusted
from contracts.pipeline import jstok

TH = "vanillaplusjs.build.js.manips.type_hints"
trusted.ASSUME["C20"] = {
    "trusted": ["str.strip removes the surrounding white space; the serialization of a token list is the concatenation of its tokens' (C05)"],
    "assumptions": ["the generator is driven as JSYieldManipulator drives it: its stack holds the tokens it was given, and the end of the file is the last token (C05, C06)"],
}
STRIP = z3.Function("stripped", z3.StringSort(), z3.StringSort())


class TypeHints(Contract):
    fn = TH + ":TypeHintsManipulator.handle"
    title = "TypeHintsManipulator.handle"
    expect_paths = 5
    no_termination = True  # the caller decides when the tokens end

    def setup(self, E, st):
        m = importlib.import_module(TH)
        self.TT = importlib.import_module("vanillaplusjs.build.js.token").JSTokenType
        self.T = jstok()
        E.recs.append(self.T)
        self.EN = TEnum(self.TT)
        self.TS = TSeq(self.T)
        self.HINT = z3.Function("holds_a_hint", self.TS.sort(), z3.BoolSort())
        self.OPEN = z3.Function("no_line_end_yet", self.TS.sort(), z3.BoolSort())
        self.TEXT = z3.Function("text_of", self.TS.sort(), z3.StringSort())
        self.tok = self.T.const("token")
        self.skip0, self.scan = z3.Bool("skipping"), z3.Bool("scanning")
        empty = z3.Empty(self.TS.sort())
        st.assume(z3.Not(self.HINT(empty)), self.OPEN(empty))
        st.assume(*self.valid(self.tok))
        st.ghost["$before"] = S(self.TS, empty)
        self.stack = st.alloc(ListCell(seq=S(self.TS, z3.Unit(self.tok))))
        mode = S(TStr, z3.If(self.scan, z3.StringVal("scan"), z3.StringVal("build")))
        self.me = st.alloc(ObjCell(m.TypeHintsManipulator, {"mode": mode, "_skip_next_line": S(TBool, self.skip0), "stack": self.stack, "state": C("marking"), "generator": C(None)}))
        return [self.me, S(self.T, self.tok)], {}

    def ty(self, t, *names):
        e = self.T.get(t, "type")
        return _or([e == self.EN.member(getattr(self.TT, n)) for n in names])

    def valid(self, t):
        O = TOpt(TStr)
        return [z3.Implies(self.ty(t, "comment"), z3.Not(O.is_none(self.T.get(t, "value"))))]

    def hint(self, t):
        return z3.And(self.ty(t, "comment"), STRIP(TOpt(TStr).val(self.T.get(t, "value"))) == z3.StringVal("@@type-hint"))

    def ends(self, t):
        return self.ty(t, "line_terminator", "eof")

    def step(self, p, t):
        whole = z3.Concat(p, z3.Unit(t))
        return [self.HINT(whole) == z3.Or(self.HINT(p), self.hint(t)), self.OPEN(whole) == z3.And(self.OPEN(p), z3.Not(self.ends(t)))]

    def stk(self, E, st):
        return E.embed(st, st.heap[self.me.lid].fields["stack"], self.TS)

    def on_yield(self, E, st, v):
        E.oblige(st, "asks-for-the-next-token", B(isinstance(v, C) and v.v is None))
        now = self.stk(E, st)
        last = now[z3.Length(now) - 1]
        before = st.ghost["$before"].e
        st.assume(*self.step(before, last))
        E.oblige(st, "asks-only-within-the-line", z3.And(now == z3.Concat(before, z3.Unit(last)), z3.Not(self.ends(last))))
        t = self.T.fresh("token")
        st.assume(*self.valid(t))
        st.ghost["$before"] = S(self.TS, now)
        f = st.heap[self.me.lid].fields
        l = f["stack"]
        st.heap[l.lid] = ListCell(seq=S(self.TS, z3.Concat(now, z3.Unit(t))))
        return [(st, S(self.T, t))]

    def candidates(self, E, lc):
        out = []
        p = lc.st.ghost["$before"].e
        now = self.stk(E, lc.st)
        for nm, e, _ in lc.typed(self.T):
            out.append((f"stack-ends-with-{nm}", now == z3.Concat(p, z3.Unit(e))))
            out += [(f"{nm}-valid", x) for x in self.valid(e)]
        for nm, e, _ in lc.typed(TBool):
            out.append((f"{nm}-hint-seen", e == self.HINT(p)))
            out.append((f"{nm}-no-hint-seen", e == z3.Not(self.HINT(p))))
        out.append(("line-still-open", self.OPEN(p)))
        f = lc.st.heap[self.me.lid].fields["_skip_next_line"]
        out.append(("not-skipping", z3.Not(B(E.truth(lc.st, f)))))
        return out

    def str_hook(self, E, st, s, name, args, kwargs):
        if name == "strip" and not args:
            return [(st, S(TStr, STRIP(E.embed(st, s, TStr))))]
        return None

    def models(self):
        def ser(E, st, a, k):
            return [(st, S(TStr, self.TEXT(E.embed(st, a[0], self.TS))))]
        return {importlib.import_module("vanillaplusjs.build.js.serializer").serialize_many: ser}

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        T, TT = self.T, self.TT
        p = st.ghost["$before"].e
        now = self.stk(E, st)
        last = now[z3.Length(now) - 1]
        skip = st.heap[self.me.lid].fields["_skip_next_line"]
        skip = B(E.truth(st, skip))
        lt = self.ty(self.tok, "line_terminator")
        started = p == z3.Empty(self.TS.sort())
        declined = isinstance(res, C) and res.v is False
        E.oblige(st, "stack-is-the-caller's", now == z3.Concat(p, z3.Unit(last)))
        E.oblige(st, "scanning-changes-nothing", z3.Implies(self.scan, z3.And(B(declined), started, skip == self.skip0)))
        within = z3.And(z3.Not(self.scan), self.skip0)
        E.oblige(st, "rest-of-an-unmarked-line-is-left-alone", z3.Implies(within, z3.And(B(declined), started, skip == z3.Not(lt))))
        fresh = z3.And(z3.Not(self.scan), z3.Not(self.skip0))
        E.oblige(st, "line-ends-are-left-alone", z3.Implies(z3.And(fresh, lt), z3.And(B(declined), started, z3.Not(skip))))
        line = z3.And(fresh, z3.Not(lt))
        E.oblige(st, "reads-exactly-one-line", z3.Implies(line, z3.And(self.OPEN(p), self.ends(last))))
        if declined:
            E.oblige(st, "lines-without-a-hint-are-left-alone", z3.Implies(line, z3.And(z3.Not(self.HINT(p)), skip)))
            return
        E.oblige(st, "only-lines-with-a-hint-are-replaced", z3.And(line, self.HINT(p), z3.Not(skip)))
        r = E.embed(st, res, self.TS)
        O = TOpt(TStr)
        comment = T.mk(*[{"type": self.EN.member(TT.comment), "value": O.some(self.TEXT(p))}[f] for f in T.fields])
        E.oblige(st, "line-becomes-one-comment-and-its-end", r == z3.Concat(z3.Unit(comment), z3.Unit(last)))


CONTRACTS = {"C20": [TypeHints]}


# ------------------------------------------------- C22: copies and hashes
from contracts.disk import *  # noqa: E402,F401,F403

H = "vanillaplusjs.build.handlers."
trusted.ASSUME["C22"] = {
    "trusted": ["os, shutil, hashlib and base64 do what they say; a link has the bytes of its target", "making a folder that may be there already (makedirs_safely) changes no file"],
    "assumptions": ["posix paths; the project folder's path does not end in a slash; a file handed to a builder exists"],
}


class Pub(Disk):
    """A handler called for a path relative to the project."""

    roots = ("src/public/",)
    suffix = ""
    expect_paths = 2
    timeout = 15.0

    def setup(self, E, st):
        self.disk(st)
        self.rel = z3.String("relpath")
        self.ctx = self.context(st)
        st.assume(z3.Not(z3.PrefixOf(sv("/"), self.rel)), self.has(self.fs0, self.at(self.rel)))
        return [self.ctx, S(TStr, self.rel)], {}

    def inside(self, rel=None):
        rel = self.rel if rel is None else rel
        return _or([z3.PrefixOf(sv(r), rel) for r in self.roots])

    def target(self, rel=None):
        """Where a published file goes."""
        rel = self.rel if rel is None else rel
        t = None
        for r in self.roots:
            x = z3.Concat(sv("out/www/"), z3.SubString(rel, len(r), z3.Length(rel) - len(r)), sv(self.suffix))
            t = x if t is None else z3.If(z3.PrefixOf(sv(r), rel), x, t)
        return t

    def strs(self, E, st, v):
        """A list (as it is) of strings, or a reason it is none."""
        k, x = E.list_get(st, v)
        if k != "items":
            raise Unsupported("result list is not explicit")
        return [E.embed(st, y, TStr) for y in x]

    def members(self, E, st, v):
        """(x -> whether the list v holds x, its length)"""
        k, x = E.list_get(st, v)
        if k == "items":
            es = [E.embed(st, y, TStr) for y in x]
            return lambda t: _or([e == t for e in es]) if es else z3.BoolVal(False), z3.IntVal(len(es))
        if not isinstance(x.t, TBag):
            return lambda t: z3.Contains(x.e, z3.Unit(t)), z3.Length(x.e)
        ln, at, bag, *_ = x.t.fns()
        return lambda t: z3.Select(bag(x.e), t) >= 1, ln(x.e)

    def only(self, E, st, v, allowed, name, when=True):
        """obligation: v holds nothing but the allowed (condition, string)s, each once"""
        has, n = self.members(E, st, v)
        q = z3.String("any_entry")
        E.oblige(st, name, z3.Implies(B(when), z3.And(*[has(t) == c for c, t in allowed], z3.Implies(has(q), _or([z3.And(c, q == t) for c, t in allowed]) if allowed else z3.BoolVal(False)), z3.Or(n == 0, B(bool(allowed))))))

    def is_list(self, E, st, v, cases):
        """v is the list of those strings whose condition holds."""
        got = self.strs(E, st, v)
        want = [(c, t) for c, t in cases]
        # at most one case here
        c, t = want[0]
        return z3.And(c == B(len(got) == 1), got[0] == t) if len(got) == 1 else z3.And(z3.Not(c), B(len(got) == 0))


class CopyTarget(Pub):
    fn = H + "copy:get_target_path"
    title = "copy.get_target_path"

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        O = TOpt(TStr)
        r = E.embed(st, res, O)
        E.oblige(st, "exactly-the-public-files", O.is_none(r) == z3.Not(self.inside()))
        E.oblige(st, "published-at-the-same-path", z3.Implies(self.inside(), O.val(r) == self.target()))
        E.oblige(st, "nothing-is-written", self.fs(st) == self.fs0)

    def apply(self, E, st, args, kwargs):
        rel = E.embed(st, (list(args) + [None, None])[1] or kwargs["relpath"], TStr)
        a, b = E.fork(st, self.inside(rel))
        out = []
        if a is not None:
            out.append((a, S(TStr, z3.simplify(self.target(rel)))))
        if b is not None:
            out.append((b, NONE))
        return out


class HashTarget(CopyTarget):
    fn = H + "hash:get_target_path"
    title = "hash.get_target_path"
    roots = ("src/public/", "out/www/")
    suffix = ".hash"


class CopyScan(Pub):
    fn = H + "copy:scan_file"
    title = "copy.scan_file"

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        f = st.heap[res.lid].fields
        E.oblige(st, "depends-on-nothing", self.is_list(E, st, f["dependencies"], [(z3.BoolVal(False), sv(""))]))
        E.oblige(st, "announces-exactly-the-published-file", self.is_list(E, st, f["produces"], [(self.inside(), self.target())]))
        E.oblige(st, "nothing-is-written", self.fs(st) == self.fs0)


class HashScan(CopyScan):
    fn = H + "hash:scan_file"
    title = "hash.scan_file"
    roots = HashTarget.roots
    suffix = ".hash"


class CopyBuild(Pub):
    fn = H + "copy:build_file"
    title = "copy.build_file"
    expect_paths = 3

    def published(self, fs, rel):
        return self.get(fs, self.at(rel))

    def effect(self, fs, rel):
        """The disk after publishing rel."""
        t = self.at(self.target(rel))
        return z3.If(z3.And(self.inside(rel), z3.Not(self.has(fs, t))), self.stored(fs, t, self.published(fs, rel)), fs)

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        f = st.heap[res.lid].fields
        t = self.at(self.target())
        there = self.has(self.fs0, t)
        E.oblige(st, "no-children", self.is_list(E, st, f["children"], [(z3.BoolVal(False), sv(""))]))
        E.oblige(st, "produces-what-was-missing", self.is_list(E, st, f["produced"], [(z3.And(self.inside(), z3.Not(there)), self.target())]))
        E.oblige(st, "reuses-what-is-there", self.is_list(E, st, f["reused"], [(z3.And(self.inside(), there), self.target())]))
        q = z3.String("any_path")
        a, b = self.fs(st), self.effect(self.fs0, self.rel)
        E.oblige(st, "writes-exactly-the-published-file", z3.And(self.has(a, q) == self.has(b, q), z3.Implies(self.has(b, q), self.get(a, q) == self.get(b, q))))


class HashBuild(CopyBuild):
    fn = H + "hash:build_file"
    title = "hash.build_file"
    roots = HashTarget.roots
    suffix = ".hash"

    def published(self, fs, rel):
        return TEXT(B64(HASH(self.get(fs, self.at(rel)))))


class CopyAndHashScan(Pub):
    fn = H + "copy_and_hash:scan_file"
    title = "copy_and_hash.scan_file"

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        f = st.heap[res.lid].fields
        got = self.strs(E, st, f["produces"])
        E.oblige(st, "depends-on-nothing", B(len(self.strs(E, st, f["dependencies"])) == 0))
        E.oblige(st, "nothing-is-written", self.fs(st) == self.fs0)
        pub = z3.PrefixOf(sv("src/public/"), self.rel)
        out = z3.PrefixOf(sv("out/www/"), self.rel)
        t = z3.Concat(sv("out/www/"), z3.SubString(self.rel, 11, z3.Length(self.rel) - 11))
        E.oblige(st, "announces-the-file-and-its-hash", z3.Implies(z3.Not(out), z3.If(pub, z3.And(B(len(got) == 2), *( [_or([g == t for g in got]), _or([g == z3.Concat(t, sv(".hash")) for g in got])] if got else [])), B(len(got) == 0))))


class CopyAndHashBuild(Pub):
    fn = H + "copy_and_hash:build_file"
    title = "copy_and_hash.build_file"
    expect_paths = 4

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        f = st.heap[res.lid].fields
        pub = z3.PrefixOf(sv("src/public/"), self.rel)
        out = z3.PrefixOf(sv("out/www/"), self.rel)
        t = z3.Concat(sv("out/www/"), z3.SubString(self.rel, 11, z3.Length(self.rel) - 11))
        th = z3.Concat(t, sv(".hash"))
        E.oblige(st, "no-children", B(len(self.strs(E, st, f["children"])) == 0))
        pr, re = self.strs(E, st, f["produced"]), self.strs(E, st, f["reused"])
        mem = lambda l, x: _or([g == x for g in l]) if l else z3.BoolVal(False)
        had = lambda p: self.has(self.fs0, self.at(p))
        for p, n in ((t, "file"), (th, "hash")):
            E.oblige(st, f"the-{n}-is-produced-or-reused", z3.Implies(pub, z3.And(mem(pr, p) == z3.Not(had(p)), mem(re, p) == had(p))))
        E.oblige(st, "nothing-else-is-reported", z3.Implies(z3.Not(out), B(len(pr) + len(re) == 0) == z3.Not(pub)))
        E.oblige(st, "each-is-reported-once", z3.Implies(pub, B(len(pr) + len(re) == 2)))
        a, q = self.fs(st), z3.String("any_path")
        src, T, TH = self.at(self.rel), self.at(t), self.at(th)
        E.oblige(st, "the-copy-has-the-source's-bytes", z3.Implies(pub, z3.And(self.has(a, T), z3.Implies(z3.Not(had(t)), self.get(a, T) == self.get(self.fs0, src)))))
        E.oblige(st, "the-hash-is-the-source's", z3.Implies(pub, z3.And(self.has(a, TH), z3.Implies(z3.Not(had(th)), self.get(a, TH) == TEXT(B64(HASH(self.get(self.fs0, src))))))))
        same = z3.And(self.has(a, q) == self.has(self.fs0, q), self.get(a, q) == self.get(self.fs0, q))
        E.oblige(st, "no-other-file-is-touched", z3.Implies(z3.Or(z3.Not(pub), z3.And(q != T, q != TH)), z3.Implies(z3.Not(out), same)))


CONTRACTS["C22"] = [CopyTarget, HashTarget, CopyScan, HashScan, CopyBuild, HashBuild, CopyAndHashScan, CopyAndHashBuild]
