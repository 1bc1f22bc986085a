"""C14: templates and the variables they are given."""
import builtins
import importlib
import json
import os
import re
import z3

from contracts.disk import *  # noqa: F401,F403
from vc import trusted
from vc.contracts import Contract
from vc.engine import B, _and, _or
from vc.values import *

TMPL = "vanillaplusjs.build.html.manips.template"
TM = TMPL + ":TemplateManipulator"
trusted.ASSUME["C14"] = {
    "trusted": ["html5lib parses and serializes", "json: loads gives back what dumps wrote, in one line", "re: the two patterns match the comments they are meant for (bounded check)", "os.path.normpath and dirname"],
    "assumptions": ["a command with more than four parts is represented by one with four", "the builder offers what a manipulator answers again (C06), so that the commands and the tokens of a template are seen in order", "posix paths"],
}
Json = TU("JsonValue")
Vars = TMap(TStr, Json)
Rx = {k: z3.Function("matches_" + k, z3.StringSort(), z3.BoolSort()) for k in ("STACK", "TEMPLATE")}
ARGS = {k: z3.Function("arguments_" + k, z3.StringSort(), z3.StringSort()) for k in Rx}
PLAIN = z3.Function("is_text_or_number", Json.sort(), z3.BoolSort())
STR = z3.Function("as_text", Json.sort(), z3.StringSort())
ISSTR = z3.Function("is_text", Json.sort(), z3.BoolSort())
ISDICT = z3.Function("is_object", Json.sort(), z3.BoolSort())
JSTR = z3.Function("json_text", z3.StringSort(), Json.sort())
PASSED = z3.Function("passed", Vars.sort(), Json.sort(), Json.sort())
FIELD = z3.Function("field_of", Json.sort(), z3.StringSort(), Json.sort())
PUSH = z3.Function("push_command", z3.StringSort(), z3.StringSort())
DEF = z3.Function("define_command", z3.StringSort(), Json.sort(), z3.StringSort())
NORM = z3.Function("normalized", z3.StringSort(), z3.StringSort())
Tok = TRec("HTMLTok", {"type": TStr, "data": TStr})
Toks = TBag(Tok)
LEN, AT = Toks.fns()[0], Toks.fns()[1]
TOKENS = z3.Function("tokens_of_fragment", Content.sort(), Toks.sort())
SSet = TSet(TStr)


PJ = z3.Function("joined", z3.StringSort(), z3.StringSort(), z3.StringSort())


def join(a, b):
    """os.path.join, whose meaning plays no part here"""
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_string_value(a) and z3.is_string_value(b):
        return sv(os.path.join(a.as_string(), b.as_string()))
    return PJ(a, b)


class Match:
    pass


class Temp(Disk):
    no_termination = True
    opaque_strings = True
    bag_elems = (Tok,)
    timeout = 15.0

    def begin(self, E, st):
        m = importlib.import_module(TMPL)
        E.use_bag(Toks)
        self.disk(st)
        self.ctx = self.context(st)
        self.FrameT = TRec("StackFrame", {"relpath": TStr, "variables": Vars}, "obj", m.StackFrame)
        self.FS_ = TSeq(self.FrameT)
        E.recs += [self.FrameT, Tok]
        self.stack0 = self.FS_.const("stack")
        self.stack = st.alloc(ListCell(seq=S(self.FS_, self.stack0)))
        self.rel, self.here = z3.String("relpath"), z3.String("current_relpath")
        self.vars0 = Vars.const("variables")
        vs = st.alloc(DictCell(sym=S(Vars, self.vars0)))
        self.frame = st.alloc(ObjCell(m.StackFrame, {"relpath": S(TStr, self.here), "variables": vs}))
        self.scan = z3.Bool("scanning")
        self.dep0, self.ch0 = SSet.const("dependencies0"), SSet.const("children0")
        f = {"context": self.ctx, "relpath": S(TStr, self.rel), "mode": S(TStr, z3.If(self.scan, sv("scan"), sv("build"))), "stack": self.stack, "current_frame": self.frame,
             "dependencies": st.alloc(SetCell(sym=S(SSet, self.dep0))), "children": st.alloc(SetCell(sym=S(SSet, self.ch0)))}
        self.me = st.alloc(ObjCell(m.TemplateManipulator, f))
        self.ty, self.data = z3.String("type"), z3.String("data")
        self.node = st.alloc(DictCell(items={"type": S(TStr, self.ty), "data": S(TStr, self.data)}))
        st.ghost["$cmd"] = C(None)
        self.enums = []
        w = JSTR(sv("variable"))  # a text is the text it is
        st.assume(STR(w) == sv("variable"), ISSTR(w))
        j, w = z3.Const("j", Json.sort()), PASSED(self.vars0, z3.Const("j", Json.sort()))
        st.assume(z3.ForAll([j], w == self.meaning(j), patterns=[w]))
        return [self.me, self.node], {}

    def setup(self, E, st):
        return self.begin(E, st)

    def at(self, rel):
        return join(self.folder, rel)

    # ---------------------------------------------------------- the library
    def call_hook(self, E, st, f, args, kwargs):
        m = importlib.import_module(TMPL)
        g = getattr(f, "v", None) if isinstance(f, C) else None
        if isinstance(getattr(g, "__self__", None), re.Pattern) and g.__name__ == "match":
            which = {m.PREPROCESSOR_STACK_ACTION_RULE: "STACK", m.PREPROCESSOR_TEMPLATE_ACTION_RULE: "TEMPLATE"}[g.__self__]
            e = E.embed(st, args[0], TStr)
            out = []
            ok, bad = E.fork(st, Rx[which](e))
            if ok is not None:
                out.append((ok, ok.alloc(ObjCell(Match, {"of": C(which), "text": S(TStr, ARGS[which](e))}))))
            if bad is not None:
                out.append((bad, NONE))
            return out
        if g is str and len(args) == 1 and isinstance(args[0], S) and args[0].t == Json:
            return [(st, S(TStr, STR(args[0].e)))]
        return super().call_hook(E, st, f, args, kwargs)

    def method_hook(self, E, st, recv, name, args, kwargs):
        if isinstance(recv, L) and isinstance(st.heap[recv.lid], ObjCell) and st.heap[recv.lid].cls is Match:
            c = st.heap[recv.lid].fields
            if name != "group" or args[0].v not in ("args", 1):
                raise Unsupported("match." + name)
            st.ghost["$rule"] = c["of"]
            return [(st, c["text"])]
        if isinstance(recv, S) and recv.t == Json and name == "get" and len(args) == 1:
            v = FIELD(recv.e, E.embed(st, args[0], TStr))
            out = []
            text, other = E.fork(st, ISSTR(v))
            if text is not None:
                t = STR(v)
                text.assume(v == JSTR(t))
                out.append((text, S(TStr, t)))
            if other is not None:
                out.append((other, S(Json, v)))
            return out
        return super().method_hook(E, st, recv, name, args, kwargs)

    def isinstance_hook(self, E, st, v, classes):
        if isinstance(v, S) and v.t == Json:
            known = {str: ISSTR(v.e), dict: ISDICT(v.e), list: z3.BoolVal(False)}
            if set(classes) == {str, int, float}:
                return PLAIN(v.e)
            if all(c in known for c in classes):
                return _or([known[c] for c in classes])
        return None

    def eq_hook(self, E, st, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, S) and x.t == Json and isinstance(y, C) and isinstance(y.v, str):
                return [(st, S(TBool, x.e == JSTR(sv(y.v))))]
        return None

    def models(self):
        out = super().models()

        def loads(E, st, a, k):
            t = st.ghost["$rule"].v
            out = [(st.copy(), Raised(json.JSONDecodeError))]
            J = lambda s: S(Json, Json.fresh("part"))

            def other(s):
                j = J(s)
                s.assume(z3.Not(ISSTR(j.e)), z3.Not(ISDICT(j.e)))
                return j

            def shape(*parts):
                if not self.covers(t, [p.__name__.replace("<lambda>", "J") for p in parts]):
                    return
                s = st.copy()
                vs = [p(s) for p in parts]
                if parts and parts[0] is text:
                    self.first(s, vs[0].e)
                    s.ghost["$cmd"] = C((t, [p.__name__.replace("<lambda>", "J") for p in parts], vs, [self.wrapped(E, s, v) for v in vs]))
                out.append((s, s.alloc(ListCell(items=vs))))

            def text(s):
                return S(TStr, TStr.fresh("part"))

            def obj(s):
                return s.alloc(DictCell(sym=S(Vars, Vars.fresh("given"))))
            s = st.copy()
            out.append((s, other(s)))
            shape()
            shape(other)
            shape(text)
            for second in (text, obj, other):
                for n in range(3):
                    shape(text, second, *[J] * n)
            return out

        def dumps(E, st, a, k):
            kd, x = E.list_get(st, a[0])
            what = x[0].v if kd == "items" and x and isinstance(x[0], C) else None
            if what == "push" and len(x) == 2:
                return [(st, S(TStr, PUSH(E.embed(st, x[1], TStr))))]
            if what == "define" and len(x) == 3:
                return [(st, S(TStr, DEF(E.embed(st, x[1], TStr), E.embed(st, x[2], Json))))]
            if what == "pop" and len(x) == 1:
                return [(st, C('["pop"]'))]
            E.oblige(st, "a-command-that-is-understood", B(False))
            return [(st, S(TStr, TStr.fresh("dumped")))]

        def tokenize(E, st, a, k):
            f = st.heap[a[0].lid]
            frag = k.get("fragment", a[1] if len(a) > 1 else C(False))
            E.oblige(st, "read-as-a-fragment", B(isinstance(frag, C) and frag.v is True))
            return [(st, S(Toks, TOKENS(self.get(self.fs(st), f.fields["path"].e))))]
        norm = lambda E, st, a, k: [(st, S(TStr, NORM(E.embed(st, a[0], TStr))))]

        def pjoin(E, st, a, k):
            r = E.embed(st, a[0], TStr)
            for x in a[1:]:
                r = join(r, E.embed(st, x, TStr))
            return [(st, S(TStr, r))]
        out.update({os.path.join: pjoin, json.loads: loads, json.dumps: dumps, os.path.normpath: norm, importlib.import_module("vanillaplusjs.build.html.tokenizer").tokenize: tokenize})
        return out

    def first(self, s, e):
        pass

    def covers(self, rule, kinds):
        return True

    def wrapped(self, E, st, v):
        return E.embed(st, v, Vars) if isinstance(v, L) else v.e

    def str_hook(self, E, st, s, name, args, kwargs):
        if name == "replace" and all(isinstance(a, C) for a in args) and args[0].v == args[1].v:
            return [(st, s)]
        return None

    def on_enum(self, E, st, t, arr, l):
        self.enums.append((t, l))

    # -------------------------------------------------------- what is meant
    def named(self, v):
        n = FIELD(v, sv("name"))
        return z3.And(ISDICT(v), FIELD(v, sv("type")) == JSTR(sv("variable")), ISSTR(n)), STR(n)

    def passed(self, v):
        """what a variable given as v holds"""
        return PASSED(self.vars0, v)

    def meaning(self, v):
        is_, name = self.named(v)
        return z3.If(z3.And(is_, z3.Select(Vars.has(self.vars0), name)), z3.Select(Vars.get(self.vars0), name), v)

    def define(self, k, v):
        return Tok.mk(*[{"type": sv("Comment"), "data": z3.Concat(sv("[STACK: "), DEF(k, v), sv("]"))}[f] for f in Tok.fields])

    def comment(self, e):
        return Tok.mk(*[{"type": sv("Comment"), "data": z3.Concat(sv("[STACK: "), e, sv("]"))}[f] for f in Tok.fields])

    def candidates(self, E, lc):
        out = []
        k, j = z3.String("k"), z3.Int("j")
        for nm, e, e0 in lc.typed(Vars):
            if e0 is None:
                continue
            out.append((f"{nm}-same-names", z3.ForAll([k], z3.Select(Vars.has(e), k) == z3.Select(Vars.has(e0), k), patterns=[z3.Select(Vars.has(e), k)])))
            for i, (t, l) in enumerate(self.enums[-1:]):
                seen = z3.Select(t.fns()[4](l, lc.idx), k) >= 1
                v0 = z3.Select(Vars.get(e0), k)
                out.append((f"{nm}-filled-in-so-far-{i}", z3.ForAll([k], z3.Select(Vars.get(e), k) == z3.If(seen, self.passed(v0), v0), patterns=[z3.Select(Vars.get(e), k)])))
        for nm, e, e0 in lc.typed(Toks):
            if e0 is None:
                continue
            out.append((f"{nm}-grows", LEN(e) == LEN(e0) + lc.idx))
            out.append((f"{nm}-keeps-its-first", AT(e, 0) == AT(e0, 0)))
            fin = self.final(E, lc.st)
            if fin is not None:
                for i, (t, l) in enumerate(self.enums[-1:]):
                    x = t.fns()[1](l, j)
                    out.append((f"{nm}-defines-{i}", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lc.idx), AT(e, 1 + j) == self.define(x, z3.Select(Vars.get(fin), x))), patterns=[x])))
        return out

    def final(self, E, st):
        return None

    def changed(self, E, st):
        f = st.heap[self.me.lid].fields
        fr = E.embed(st, f["current_frame"], self.FrameT)
        return E.embed(st, f["stack"], self.FS_), self.FrameT.get(fr, "relpath"), self.FrameT.get(fr, "variables"), E.embed(st, f["dependencies"], SSet), E.embed(st, f["children"], SSet)


class TStart(Temp):
    fn = TM + ".start_mark"
    title = "TemplateManipulator.start_mark"
    expect_paths = 6

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        cmd = st.ghost["$cmd"].v
        E.oblige(st, "exactly-the-commands-are-marked", B(E.truth(st, res)) == B(cmd is not None))
        E.oblige(st, "only-comments-hold-commands", B(True) if cmd is None else self.ty == sv("Comment"))
        rel = z3.Or(self.ty != sv("Comment"), z3.And(z3.Not(Rx["STACK"](self.data)), z3.Not(Rx["TEMPLATE"](self.data))))
        asked = "$rule" in st.ghost
        E.oblige(st, "all-comments-that-match-are-looked-at", z3.Or(rel, B(asked)))
        self.nothing(E, st)

    def nothing(self, E, st):
        s, r, v, d, c = self.changed(E, st)
        E.oblige(st, "nothing-changes", z3.And(s == self.stack0, r == self.here, v == self.vars0, d == self.dep0, c == self.ch0))


class TContinue(TStart):
    """what is no template"""
    rooted = None
    fn = TM + ".continue_mark"
    title = "TemplateManipulator.continue_mark[all but templates]"
    expect_paths = 10

    def covers(self, rule, kinds):
        return not (rule == "TEMPLATE" and kinds[:1] == ["text"] and kinds[1:2] in ([], ["obj"]))

    def final(self, E, st):
        """what the template is given, its variables filled in"""
        cmd = st.ghost["$cmd"].v
        return E.embed(st, cmd[2][1], Vars) if cmd and cmd[0] == "TEMPLATE" and len(cmd[2]) > 1 and isinstance(cmd[2][1], L) else None

    def post(self, E, pre, st, res):
        cmd = st.ghost["$cmd"].v
        raised = isinstance(res, Raised)
        toks = None if raised else E.embed(st, res, Toks)
        s, r, v, d, c = self.changed(E, st)
        k = z3.String("any_name")
        same_vars = z3.And(z3.Select(Vars.has(v), k) == z3.Select(Vars.has(self.vars0), k), z3.Select(Vars.get(v), k) == z3.Select(Vars.get(self.vars0), k))
        same_frames = z3.And(s == self.stack0, r == self.here)
        refs = z3.And(d == self.dep0, c == self.ch0)
        if cmd is None:
            E.oblige(st, "what-is-no-command-does-nothing", B(False) if raised else z3.And(LEN(toks) == 0, same_frames, same_vars, refs))
            return
        rule, kinds, vals, es = cmd
        n = len(es)
        if rule == "TEMPLATE":
            return self.template(E, st, res, toks, kinds, es, (s, r, v, d, c))
        E.oblige(st, "no-file-is-named", refs)
        is_ = lambda w: es[0] == sv(w)
        key = es[1] if n > 1 and kinds[1] == "text" else None
        known = []

        def case(name, cond, goal):
            known.append(cond)
            E.oblige(st, name, z3.Implies(cond, goal))
        if key is not None:
            case("push-starts-a-frame-of-its-own", is_("push"), B(False) if raised else z3.And(LEN(toks) == 0, s == z3.Concat(self.stack0, z3.Unit(self.framed(self.here, self.vars0))), r == key, z3.Not(z3.Select(Vars.has(v), k))))
        m = z3.Length(self.stack0)
        last = self.stack0[m - 1]
        case("pop-goes-back-to-the-frame-before", is_("pop"), (m == 0) if raised else z3.And(m > 0, LEN(toks) == 0, s == z3.SubSeq(self.stack0, 0, m - 1), r == self.FrameT.get(last, "relpath"), v == self.FrameT.get(last, "variables")))
        if key is not None and n == 3:
            has, val = z3.Or(k == key, z3.Select(Vars.has(self.vars0), k)), z3.If(k == key, es[2], z3.Select(Vars.get(self.vars0), k))
            case("define-sets-that-variable-alone", is_("define"), B(False) if raised else z3.And(LEN(toks) == 0, same_frames, z3.Select(Vars.has(v), k) == has, z3.Implies(has, z3.Select(Vars.get(v), k) == val)))
        if key is not None and n == 2:
            there, val = z3.Select(Vars.has(self.vars0), key), z3.Select(Vars.get(self.vars0), key)
            tok = Tok.mk(*[{"type": sv("Characters"), "data": STR(val)}[f] for f in Tok.fields])
            case("retrieve-gives-the-variable's-text", is_("retrieve"), z3.And(same_frames, same_vars, z3.Not(z3.And(there, PLAIN(val))) if raised else z3.And(there, PLAIN(val), LEN(toks) == 1, AT(toks, 0) == tok)))
        E.oblige(st, "what-is-no-command-does-nothing", z3.Implies(z3.Not(z3.Or(*known)), B(False) if raised else z3.And(LEN(toks) == 0, same_frames, same_vars)))

    def framed(self, rel, vars_):
        return self.FrameT.mk(*[{"relpath": rel, "variables": vars_}[f] for f in self.FrameT.fields])

    def template(self, E, st, res, toks, kinds, es, now):
        s, r, v, d, c = now
        E.oblige(st, "the-frame-is-left-alone", z3.And(s == self.stack0, r == self.here, v == self.vars0))
        if len(kinds) > 1 and kinds[1] != "obj":
            E.oblige(st, "what-is-no-command-does-nothing", B(False) if toks is None else z3.And(LEN(toks) == 0, d == self.dep0, c == self.ch0))
            return
        name = es[0]
        fixed, relative = join(sv("src/partials"), z3.SubString(name, 1, z3.Length(name) - 1)), NORM(join(DIR(self.here), name))
        path = z3.If(z3.PrefixOf(sv("/"), name), fixed, relative) if self.rooted is None else fixed if self.rooted else relative
        q = z3.String("any_file")
        E.oblige(st, "the-template-is-reported-for-the-mode", z3.And(z3.Select(d, q) == z3.Or(z3.Select(self.dep0, q), z3.And(self.scan, q == path)), z3.Select(c, q) == z3.Or(z3.Select(self.ch0, q), z3.And(z3.Not(self.scan), q == path))))
        there = self.has(self.fs0, self.at(path))
        if toks is None:
            E.oblige(st, "fails-only-when-there-is-no-such-file", z3.And(B(res.cls is FileNotFoundError), z3.Not(there)))
            return
        E.oblige(st, "the-file-is-there", there)
        E.oblige(st, "first-a-frame-of-the-template's", AT(toks, 0) == self.comment(PUSH(path)))
        text = TOKENS(self.get(self.fs0, self.at(path)))
        i = z3.Int("any_token")

        def body(n):
            return z3.And(LEN(toks) == 2 + n + LEN(text), z3.Implies(z3.And(0 <= i, i < LEN(text)), AT(toks, 1 + n + i) == AT(text, i)), AT(toks, 1 + n + LEN(text)) == self.comment(sv('["pop"]')))
        j = z3.Int("any_position")
        if len(kinds) == 1:
            E.oblige(st, "then-the-template-and-the-frame-before", body(0))
            return
        cases = []
        for t, l in self.enums:
            n, x = t.fns()[0](l), t.fns()[1](l, j)
            val = self.passed(z3.Select(Vars.get(es[1]), x))
            y = z3.String("any_name")
            mine = z3.Select(t.fns()[2](l), y) == z3.If(z3.Select(Vars.has(es[1]), y), 1, 0)
            cases.append(z3.And(mine, z3.Implies(z3.And(0 <= j, j < n), AT(toks, 1 + j) == self.define(x, val)), body(n)))
        E.oblige(st, "then-each-variable-it-is-given-the-template-and-the-frame-before", _or(cases) if cases else B(False))


FILLED = z3.Function("filled_in", Vars.sort(), Vars.sort(), Vars.sort())
EXPANDED = z3.Function("expanded", z3.StringSort(), Vars.sort(), z3.BoolSort(), Content.sort(), Toks.sort())


class TImport(Temp):
    """which template a command names, and what it is given"""
    fn = TM + ".try_get_template_import"
    expect_paths = 2
    kinds = ("text", "obj")


    def setup(self, E, st):
        self.begin(E, st)
        vals = []
        for k in self.kinds:
            if k == "text":
                vals.append(S(TStr, TStr.fresh("part")))
            elif k == "obj":
                self.given = Vars.fresh("given")
                vals.append(st.alloc(DictCell(sym=S(Vars, self.given))))
            else:
                j = S(Json, Json.fresh("part"))
                if k == "other":
                    st.assume(z3.Not(ISSTR(j.e)), z3.Not(ISDICT(j.e)))
                vals.append(j)
        self.name = vals[0].e
        return [self.me, st.alloc(ListCell(items=vals))], {}

    def path(self, name, here):
        return z3.If(z3.PrefixOf(sv("/"), name), join(sv("src/partials"), z3.SubString(name, 1, z3.Length(name) - 1)), NORM(join(DIR(here), name)))

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        s, r, v, d, c = self.changed(E, st)
        E.oblige(st, "the-page-is-left-alone", z3.And(s == self.stack0, r == self.here, v == self.vars0, d == self.dep0, c == self.ch0))
        if len(self.kinds) > 1 and self.kinds[1] != "obj":
            E.oblige(st, "what-is-no-command-names-nothing", z3.Not(B(E.truth(st, res))))
            return
        E.oblige(st, "a-template-is-named", B(isinstance(res, L)))
        if not isinstance(res, L):
            return
        f = st.heap[res.lid].fields
        E.oblige(st, "rooted-in-the-partials-else-beside-the-file", E.embed(st, f["relpath"], TStr) == self.path(self.name, self.here))
        got = E.embed(st, f["variables"], Vars)
        k = z3.String("any_name")
        if len(self.kinds) == 1:
            E.oblige(st, "without-variables", z3.Not(z3.Select(Vars.has(got), k)))
            return
        has = z3.Select(Vars.has(self.given), k)
        E.oblige(st, "the-variables-it-is-given", z3.Select(Vars.has(got), k) == has)
        E.oblige(st, "with-the-values-of-the-page's-own", z3.Implies(has, z3.Select(Vars.get(got), k) == self.passed(z3.Select(Vars.get(self.given), k))))

    def apply(self, E, st, args, kwargs):
        m = importlib.import_module(TMPL)
        kd, x = E.list_get(st, args[1])
        f = st.heap[args[0].lid].fields
        F = TRec("StackFrame", {"relpath": TStr, "variables": Vars}, "obj", m.StackFrame)
        fr = E.embed(st, f["current_frame"], F)
        if len(x) > 1 and not isinstance(x[1], L):
            return [(st, NONE)]
        given = E.embed(st, x[1], Vars) if len(x) > 1 else None
        out = NOVARS if given is None else FILLED(given, F.get(fr, "variables"))
        d = st.alloc(DictCell(sym=S(Vars, out)))
        return [(st, st.alloc(ObjCell(m.TemplateImport, {"relpath": S(TStr, self.path(E.embed(st, x[0], TStr), F.get(fr, "relpath"))), "variables": d})))]


NOVARS = z3.Const("no_variables", Vars.sort())


def _imports():
    out = []
    for kinds in (("text",), ("text", "text"), ("text", "other"), ("text", "obj"), ("text", "obj", "J"), ("text", "obj", "J", "J")):
        n = "TImport" + "".join(k[0] for k in kinds)
        out.append(type(n, (TImport,), {"kinds": kinds, "expect_paths": 1 if "other" in kinds or kinds[1:] == ("text",) else 2, "title": f"TemplateManipulator.try_get_template_import[{', '.join({'text': 'text', 'obj': 'variables', 'other': 'another value', 'J': 'more'}[k] for k in kinds)}]"}))
    return out


IMPORTS = _imports()


class TExpand(Temp):
    """what a template is replaced by"""
    fn = TM + ".handle_template_import"
    title = "TemplateManipulator.handle_template_import"
    expect_paths = 2
    scans = True

    def setup(self, E, st):
        self.begin(E, st)
        m = importlib.import_module(TMPL)
        self.given, self.path = Vars.const("given"), z3.String("path")
        imp = st.alloc(ObjCell(m.TemplateImport, {"relpath": S(TStr, self.path), "variables": st.alloc(DictCell(sym=S(Vars, self.given)))}))
        return [self.me, imp], {}

    def final(self, E, st):
        return self.given

    def post(self, E, pre, st, res):
        s, r, v, d, c = self.changed(E, st)
        E.oblige(st, "the-frame-is-left-alone", z3.And(s == self.stack0, r == self.here, v == self.vars0))
        q = z3.String("any_file")
        E.oblige(st, "the-template-is-reported-for-the-mode", z3.And(z3.Select(d, q) == z3.Or(z3.Select(self.dep0, q), z3.And(self.scan, q == self.path)), z3.Select(c, q) == z3.Or(z3.Select(self.ch0, q), z3.And(z3.Not(self.scan), q == self.path))))
        there = self.has(self.fs0, self.at(self.path))
        if isinstance(res, Raised):
            E.oblige(st, "fails-only-when-there-is-no-such-file", z3.And(B(res.cls is FileNotFoundError), z3.Not(there)))
            return
        toks = E.embed(st, res, Toks)
        E.oblige(st, "the-file-is-there", there)
        E.oblige(st, "first-a-frame-of-the-template's", AT(toks, 0) == self.comment(PUSH(self.path)))
        text = TOKENS(self.get(self.fs0, self.at(self.path)))
        i, j, y = z3.Int("any_token"), z3.Int("any_position"), z3.String("any_name")
        cases = []
        for t, l in self.enums:
            n, x = t.fns()[0](l), t.fns()[1](l, j)
            mine = z3.Select(t.fns()[2](l), y) == z3.If(z3.Select(Vars.has(self.given), y), 1, 0)
            cases.append((mine, z3.Implies(z3.And(0 <= j, j < n), AT(toks, 1 + j) == self.define(x, z3.Select(Vars.get(self.given), x))), LEN(toks) == 2 + n + LEN(text), z3.Implies(z3.And(0 <= i, i < LEN(text)), AT(toks, 1 + n + i) == AT(text, i)), AT(toks, 1 + n + LEN(text)) == self.comment(sv('["pop"]'))))
        for name, part in zip(("every-variable-once", "then-each-variable-it-is-given", "nothing-else", "then-the-template", "then-the-frame-before"), zip(*cases) if cases else [(B(False),)] * 5):
            E.oblige(st, name, _or(list(part)))

    def apply(self, E, st, args, kwargs):
        f = st.heap[args[0].lid].fields
        imp = st.heap[args[1].lid].fields
        path, vs = E.embed(st, imp["relpath"], TStr), E.embed(st, imp["variables"], Vars)
        c = E.contract
        cell = f["dependencies"], f["children"]
        out = []
        for mode, l in zip((c.scan, z3.Not(c.scan)), cell):
            s = st.copy()
            s.assume(mode)
            t = s.heap[l.lid]
            s.heap[l.lid] = SetCell(sym=S(SSet, z3.Store(E.embed(s, l, SSet), path, z3.BoolVal(True))))
            a, b = E.fork(s, c.has(c.fs(s), c.at(path)))
            if a is not None:
                out.append((a, S(Toks, EXPANDED(path, vs, z3.BoolVal(True), c.get(c.fs(a), c.at(path))))))
            if b is not None:
                out.append((b, Raised(FileNotFoundError)))
        return out


class TTemplate(TContinue):
    """what the command comes to, over the contracts of its two helpers"""
    title = "TemplateManipulator.continue_mark[templates]"
    expect_paths = 4
    modular = (TImport, TExpand)

    def covers(self, rule, kinds):
        return rule == "TEMPLATE" and kinds[:1] == ["text"] and (len(kinds) == 1 or kinds[1] == "obj")

    def template(self, E, st, res, toks, kinds, es, now):
        s, r, v, d, c = now
        E.oblige(st, "the-frame-is-left-alone", z3.And(s == self.stack0, r == self.here, v == self.vars0))
        path = TImport.path(None, es[0], self.here)
        q = z3.String("any_file")
        E.oblige(st, "the-template-is-reported-for-the-mode", z3.And(z3.Select(d, q) == z3.Or(z3.Select(self.dep0, q), z3.And(self.scan, q == path)), z3.Select(c, q) == z3.Or(z3.Select(self.ch0, q), z3.And(z3.Not(self.scan), q == path))))
        there = self.has(self.fs0, self.at(path))
        if toks is None:
            E.oblige(st, "fails-only-when-there-is-no-such-file", z3.And(B(res.cls is FileNotFoundError), z3.Not(there)))
            return
        vs = NOVARS if len(kinds) == 1 else FILLED(es[1], self.vars0)
        E.oblige(st, "replaced-by-that-template-with-these-variables", z3.And(there, toks == EXPANDED(path, vs, z3.BoolVal(True), self.get(self.fs0, self.at(path)))))


globals().update({c.__name__: c for c in IMPORTS})
CONTRACTS = {"C14": [TExpand, *IMPORTS, TStart, TContinue, TTemplate]}
