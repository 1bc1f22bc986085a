"""C18: the file of JS constants."""
import importlib
import json
import os
import z3

from vc.contracts import Contract
from vc.engine import B, _and, _or
from vc.values import *
from vc import trusted
from contracts.disk import *
from contracts.handlers import Pub, HashBuild, HashTarget, CopyTarget

JC = "vanillaplusjs.build.handlers.js_constants"
BC = "vanillaplusjs.build.build_context"
Value = TU("ConfigValue")
Consts = TMap(TStr, Value)
JS = z3.Function("javascript_for", Value.sort(), z3.StringSort())
LIT = z3.Function("string_literal_for", z3.StringSort(), z3.StringSort())
JSON = z3.Function("json_for", Value.sort(), z3.StringSort())
ENV = TMap(TStr, TStr)
trusted.ASSUME["C18"] = {
    "trusted": ["json.dumps of a number, boolean, null, list or object is JavaScript for it; serialize_string is (C05)", "os, hashlib and base64 do what they say; a dictionary is iterated key by key, each key once"],
    "assumptions": ["constant names are identifiers, and the configured file lies below src/public"],
}


class Jsify(Contract):
    """What a string becomes."""

    fn = JC + ":jsify"
    title = "jsify (strings)"
    strings = True
    string = True

    def setup(self, E, st):
        self.v = z3.String("value") if self.string else Value.const("value")
        return [S(TStr if self.string else Value, self.v)], {}

    def isinstance_hook(self, E, st, v, classes):
        if v.t == Value:
            other = {str} & set(classes)
            return False if other and len(classes) == 1 else None

    def models(self):
        def ser(E, st, a, k):
            return [(st, S(TStr, LIT(E.embed(st, a[0], TStr))))]

        def dumps(E, st, a, k):
            if k or len(a) != 1 or not (isinstance(a[0], S) and a[0].t == Value):
                raise Unsupported("json.dumps with options")
            return [(st, S(TStr, JSON(a[0].e)))]
        return {importlib.import_module("vanillaplusjs.build.js.serializer").serialize_string: ser, json.dumps: dumps}

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        E.oblige(st, "javascript-for-the-value", E.embed(st, res, TStr) == (LIT(self.v) if self.string else JSON(self.v)))


class JsifyOther(Jsify):
    title = "jsify (other values)"
    string = False


class JsifyAny(Contract):
    """The callee's contract: some JavaScript for the value (by the above)."""

    fn = JC + ":jsify"

    def apply(self, E, st, args, kwargs):
        return [(st, S(TStr, JS(args[0].e)))]


class Constants(Pub):
    def setup(self, E, st):
        self.disk(st)
        self.rel, self.dev = z3.String("relpath"), z3.Bool("dev")
        self.conf = z3.String("constants_relpath")
        cls = importlib.import_module(BC).JSConstants
        self.maps = {k: Consts.const(k) for k in ("shared", "dev", "prod")}
        self.cells = {k: st.alloc(DictCell(sym=S(Consts, m))) for k, m in self.maps.items()}
        jc = st.alloc(ObjCell(cls, {"relpath": S(TStr, self.conf), **self.cells}))
        self.ctx = self.context(st, js_constants=jc, dev=S(TBool, self.dev))
        st.assume(z3.Not(z3.PrefixOf(sv("/"), self.rel)), self.has(self.fs0, self.at(self.rel)), z3.PrefixOf(sv("src/public/"), self.conf))
        self.mine = self.rel == self.conf
        self.enums = []
        return [self.ctx, S(TStr, self.rel)], {}

    def outputs(self):
        t = z3.Concat(sv("out/www/"), z3.SubString(self.rel, 11, z3.Length(self.rel) - 11))
        return t, z3.Concat(t, sv(".hash"))


class ConstantsScan(Constants):
    fn = JC + ":scan_file"
    title = "js_constants.scan_file"

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        f = st.heap[res.lid].fields
        got = self.strs(E, st, f["produces"])
        E.oblige(st, "depends-on-nothing", B(len(self.strs(E, st, f["dependencies"])) == 0))
        E.oblige(st, "nothing-is-written", self.fs(st) == self.fs0)
        ok = B(len(got) == 0) if not got else z3.And(B(len(got) == 2), *[_or([g == t for g in got]) for t in self.outputs()])
        E.oblige(st, "announces-the-file-and-its-hash", z3.If(self.mine, z3.And(B(len(got) > 0), ok), B(len(got) == 0)))


class ConstantsBuild(Constants):
    fn = JC + ":build_file"
    title = "js_constants.build_file"
    expect_paths = 4
    modular = (JsifyAny,)

    def line(self, k, m):
        return z3.Concat(sv("export const "), k, sv(" = "), JS(z3.Select(Consts.get(m), k)), sv(";\n"))

    def merged(self, k):
        """-> (there, value) of the constant k"""
        mode = lambda f: z3.If(self.dev, f(self.maps["dev"]), f(self.maps["prod"]))
        hm = mode(lambda m: z3.Select(Consts.has(m), k))
        return z3.Or(hm, z3.Select(Consts.has(self.maps["shared"]), k)), z3.If(hm, mode(lambda m: z3.Select(Consts.get(m), k)), z3.Select(Consts.get(self.maps["shared"]), k))

    def on_enum(self, E, st, t, arr, l):
        """What the lines of the first i keys are."""
        if t.t != TStr:
            return
        ln, at, bag, ix, *_ = t.fns()
        G = z3.Function("lines_of_first_" + str(len(self.enums)), l.sort(), z3.IntSort(), z3.StringSort())
        i = z3.Int("i")
        k = at(l, i)
        line = z3.Concat(sv("export const "), k, sv(" = "), JS(self.merged(k)[1]), sv(";\n"))
        st.assume(G(l, z3.IntVal(0)) == sv(""), z3.ForAll([i], z3.Implies(i >= 0, G(l, i + 1) == z3.Concat(G(l, i), line)), patterns=[at(l, i)]))
        self.enums.append((t, arr, l, G))

    def candidates(self, E, lc):
        out = []
        if lc.it is None or not self.enums:
            return out
        files = [(i, c) for i, c in lc.st.heap.items() if isinstance(c, ObjCell) and c.cls is File and c.fields["mode"].v == "w"]
        for n, (t, arr, l, G) in enumerate(self.enums):
            for i, c in files:
                e = lc.entry.heap.get(i)
                if e is None:
                    continue
                text = z3.Concat(e.fields["text"].e, G(l, lc.idx))
                out.append((f"text-of-lines-{n}", c.fields["text"].e == text))
                out.append((f"file-holds-text-{i}", self.fs(lc.st) == self.stored(self.fs(lc.entry), c.fields["path"].e, TEXT(c.fields["text"].e))))
        return out

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        f = st.heap[res.lid].fields
        had = lambda p: self.has(self.fs0, self.at(p))
        t, th = self.outputs()
        self.only(E, st, f["children"], [], "no-children")
        self.only(E, st, f["produced"], [(z3.And(self.mine, z3.Not(had(p))), p) for p in (t, th)], "produces-what-was-missing")
        self.only(E, st, f["reused"], [(z3.And(self.mine, had(p)), p) for p in (t, th)], "reuses-what-is-there")
        a, q = self.fs(st), z3.String("any_path")
        T, TH = self.at(t), self.at(th)
        same = z3.And(self.has(a, q) == self.has(self.fs0, q), self.get(a, q) == self.get(self.fs0, q))
        E.oblige(st, "no-other-file-is-touched", z3.Implies(z3.Or(z3.Not(self.mine), z3.And(q != T, q != TH)), same))
        E.oblige(st, "what-is-there-is-kept", z3.And(z3.Implies(had(t), self.get(a, T) == self.get(self.fs0, T)), z3.Implies(had(th), self.get(a, TH) == self.get(self.fs0, TH))))
        cases = []
        key = z3.String("any_key")
        for tt, arr, l, G in self.enums:
            text = G(l, tt.fns()[0](l))
            # blank lines say nothing
            blank = [text, z3.Concat(sv("\n"), text), z3.Concat(text, sv("\n"))]
            cases.append(z3.And(z3.Select(arr, key) == self.merged(key)[0], _or([self.get(a, T) == TEXT(x) for x in blank])))
        E.oblige(st, "one-export-per-constant-with-its-value", z3.Implies(z3.And(self.mine, z3.Not(had(t))), z3.And(self.has(a, T), _or(cases) if cases else z3.BoolVal(False))))
        E.oblige(st, "the-hash-is-the-file's", z3.Implies(self.mine, z3.And(self.has(a, TH), z3.Implies(z3.Not(had(th)), self.get(a, TH) == TEXT(B64(HASH(self.get(a, T))))))))


class ReplaceEnv(Contract):
    fn = BC + ":shallow_replace_envvars"
    title = "shallow_replace_envvars (strings)"
    strings = True
    string = True
    V = TStr

    def setup(self, E, st):
        self.T = TMap(TStr, self.V)
        self.data = self.T.const("data")
        self.env = ENV.const("environment")
        self.envd = st.alloc(DictCell(sym=S(ENV, self.env)))
        self.enums = []
        return [st.alloc(DictCell(sym=S(self.T, self.data)))], {}

    isinstance_hook = Jsify.isinstance_hook

    def getattr_hook(self, E, st, v, name):
        if isinstance(v, C) and v.v is os and name == "environ":
            return [(st, self.envd)]
        return None

    def on_enum(self, E, st, t, arr, l):
        self.enums.append((t, l))

    def marked(self, k):
        return z3.PrefixOf(sv("env://"), z3.Select(self.T.get(self.data), k)) if self.string else z3.BoolVal(False)

    def wanted(self, k):
        v = z3.Select(self.T.get(self.data), k)
        return z3.If(self.marked(k), z3.Select(ENV.get(self.env), z3.SubString(v, 6, z3.Length(v) - 6)), v) if self.string else v

    def candidates(self, E, lc):
        out = []
        k = z3.String("k")
        for nm, e, _ in lc.typed(self.T):
            has = z3.Select(self.T.has(e), k)
            out.append((f"{nm}-values", z3.ForAll([k], z3.Implies(has, z3.Select(self.T.get(e), k) == self.wanted(k)), patterns=[has])))
            for t, l in self.enums:
                pre = z3.Select(t.fns()[4](l, lc.idx), k)
                out.append((f"{nm}-keys", z3.ForAll([k], has == (pre >= 1), patterns=[has, pre])))
        return out

    def post(self, E, pre, st, res):
        k = z3.String("any_key")
        there = z3.Select(self.T.has(self.data), k)
        if isinstance(res, Raised):
            E.oblige(st, "raises-only-key-errors", B(res.cls is KeyError))
            q = z3.String("q")
            v = z3.Select(self.T.get(self.data), q)
            unset = z3.Not(z3.Select(ENV.has(self.env), z3.SubString(v, 6, z3.Length(v) - 6)))
            E.oblige(st, "only-for-an-unset-variable", z3.Exists([q], z3.And(z3.Select(self.T.has(self.data), q), self.marked(q), unset)) if self.string else z3.BoolVal(False))
            return
        r = E.embed(st, res, self.T)
        E.oblige(st, "same-names", z3.Select(self.T.has(r), k) == there)
        E.oblige(st, "same-values-but-for-variables", z3.Implies(there, z3.Select(self.T.get(r), k) == self.wanted(k)))


class ReplaceEnvOther(ReplaceEnv):
    title = "shallow_replace_envvars (other values)"
    string = False
    V = Value


REPL = z3.Function("variables_replaced", Consts.sort(), Consts.sort())


class ReplaceAny(Contract):
    """The callee's contract (by the two above)."""

    fn = BC + ":shallow_replace_envvars"

    def apply(self, E, st, args, kwargs):
        m = E.embed(st, args[0], Consts)
        return [(st, st.alloc(DictCell(sym=S(Consts, REPL(m)))))]


class Load(Contract):
    fn = BC + ":load_js_constants"
    title = "load_js_constants"
    strings = True
    modular = (ReplaceAny,)
    str_hook = lambda self, E, st, s, name, args, kwargs: [(st, s)] if name == "replace" and all(isinstance(a, C) for a in args) and args[0].v == args[1].v else None

    def setup(self, E, st):
        self.rel = z3.String("relpath")
        self.maps = {k: Consts.const(k) for k in ("shared", "dev", "prod")}
        self.before = {k: st.alloc(DictCell(sym=S(Consts, m))) for k, m in self.maps.items()}
        return [st.alloc(DictCell(items={"relpath": S(TStr, self.rel), **self.before}))], {}

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        f = st.heap[res.lid].fields
        E.oblige(st, "the-configured-path", E.embed(st, f["relpath"], TStr) == self.rel)
        for k, m in self.maps.items():
            E.oblige(st, f"the-{k}-constants", E.embed(st, f[k], Consts) == REPL(m))


CONTRACTS = {"C18": [Jsify, JsifyOther, ConstantsScan, ConstantsBuild, ReplaceEnv, ReplaceEnvOther, Load]}
