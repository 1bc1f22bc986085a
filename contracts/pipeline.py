"""Contracts of the token pipeline (C06).

Manipulators are arbitrary: start(m, w, t) / s_w / none(m, w, t) / cont / c_w
give the answers and the next world state w for any manipulator m.  Fin is the
specified meaning of feeding a stack of tokens; its defining equation is
unfolded once per loop iteration (lemmas)."""
import z3

from vc.contracts import Contract
from vc.engine import B, _and
from vc.values import *
from vc import trusted

W, Man, Tok = TU("World"), TU("Manip"), TU("Token")
MSeq, TS = TSeq(Man), TSeq(Tok)
OM = TOpt(Man)
w_, m_, t_, s_ = W.sort(), Man.sort(), Tok.sort(), TS.sort()
start = z3.Function("start", m_, w_, t_, z3.BoolSort())
s_w = z3.Function("start_w", m_, w_, t_, w_)
none = z3.Function("cont_none", m_, w_, t_, z3.BoolSort())
cont = z3.Function("cont", m_, w_, t_, s_)
c_w = z3.Function("cont_w", m_, w_, t_, w_)
Fin_o = z3.Function("Fin_out", w_, OM.sort(), s_, s_)
Fin_w = z3.Function("Fin_w", w_, OM.sort(), s_, w_)
Fin_m = z3.Function("Fin_m", w_, OM.sort(), s_, OM.sort())
# first manipulator (index >= j) that starts a mark; the number of
# manipulators when there is none
Scan_i = z3.Function("Scan_i", z3.IntSort(), w_, t_, z3.IntSort())
Scan_w = z3.Function("Scan_w", z3.IntSort(), w_, t_, w_)
FIN = (Fin_o, Fin_w, Fin_m)
NOM = OM.none()
EMPTY = z3.Empty(s_)

trusted.ASSUME["C06"] = {"trusted": ["manipulators are modelled as arbitrary deterministic functions of a shared state; a manipulator does not itself call the builder"], "assumptions": ["partial correctness: a manipulator that replaces a token by itself forever makes the builder loop, by design"]}


def head(s):
    return s[z3.IntVal(0)]


def tail(s):
    return z3.Extract(s, z3.IntVal(1), z3.Length(s) - 1)


class World:
    pass


class Manipulator:
    def start_mark(self, t):
        pass

    def continue_mark(self, t):
        pass


class Builder(Contract):
    mod = "html"
    no_termination = True
    expect_paths = 1
    lemmas_early = True
    timeout = 20.0

    @property
    def cls(self):
        m = __import__(f"vanillaplusjs.build.{self.mod}.builder", fromlist=["x"])
        return getattr(m, self.mod.upper() + "Builder")

    def setup(self, E, st):
        self.w0, self.mk0 = W.const("w0"), OM.const("mark0")
        self.ms, self.t = MSeq.const("manipulators"), Tok.const("token")
        self.out0 = TS.const("out0")
        self.world = st.alloc(ObjCell(World, {"w": S(W, self.w0)}))
        self.ml = st.alloc(ListCell(seq=S(MSeq, self.ms)))
        o = st.alloc(ListCell(seq=S(TS, self.out0)))
        self.o0 = o
        self.b = st.alloc(ObjCell(self.cls, {"output": o, "manipulators": self.ml, "mark": S(OM, self.mk0)}))
        return [self.b, S(Tok, self.t)], {}

    # trusted interface of a manipulator
    def method_hook(self, E, st, recv, name, args, kwargs):
        if not (isinstance(recv, S) and recv.t == Man):
            return None
        c = st.heap[self.world.lid]
        w = c.fields["w"].e
        t = E.embed(st, args[0], Tok)
        if name == "start_mark":
            st.heap[self.world.lid] = ObjCell(World, {"w": S(W, s_w(recv.e, w, t))})
            return [(st, S(TBool, start(recv.e, w, t)))]
        if name == "continue_mark":
            st.heap[self.world.lid] = ObjCell(World, {"w": S(W, c_w(recv.e, w, t))})
            a, b = E.fork(st, none(recv.e, w, t))
            out = []
            if a is not None:
                out.append((a, C(None)))
            if b is not None:
                out.append((b, b.alloc(ListCell(seq=S(TS, cont(recv.e, w, t))))))
            return out
        raise Unsupported(f"manipulator.{name}")

    def view(self, E, st):
        f = st.heap[self.b.lid].fields
        return st.heap[self.world.lid].fields["w"].e, E.embed(st, f["mark"], OM), E.embed(st, f["output"], TS)

    def unfold(self, w, mk, s):
        """The defining equation of Fin at (w, mk, s)."""
        N = z3.Length(self.ms)
        t, r = head(s), tail(s)
        i, w1 = Scan_i(0, w, t), Scan_w(0, w, t)
        out = [i <= N]

        def eq(F, other):
            return F(w, mk, s) == other
        nil = z3.Length(s) == 0
        out.append(z3.Implies(nil, z3.And(eq(Fin_o, EMPTY), eq(Fin_w, w), eq(Fin_m, mk))))

        def feed(m, v, prefix_cond):
            rest1, rest2 = (OM.some(m), r), (NOM, z3.Concat(cont(m, v, t), r))
            v2 = c_w(m, v, t)
            for F in FIN:
                out.append(z3.Implies(z3.And(prefix_cond, none(m, v, t)), F(w, mk, s) == F(v2, *rest1)))
                out.append(z3.Implies(z3.And(prefix_cond, z3.Not(none(m, v, t))), F(w, mk, s) == F(v2, *rest2)))
        unm = z3.And(z3.Not(nil), OM.is_none(mk))
        out.append(z3.Implies(z3.And(unm, i == N), z3.And(eq(Fin_o, z3.Concat(z3.Unit(t), Fin_o(w1, NOM, r))), eq(Fin_w, Fin_w(w1, NOM, r)), eq(Fin_m, Fin_m(w1, NOM, r)))))
        feed(self.ms[i], w1, z3.And(unm, i < N))
        feed(OM.val(mk), w, z3.And(z3.Not(nil), z3.Not(OM.is_none(mk))))
        return out

    def scan_unfold(self, j, w, t):
        m = self.ms[j]
        N = z3.Length(self.ms)
        w2 = s_w(m, w, t)
        return [
            z3.Implies(j == N, z3.And(Scan_i(j, w, t) == N, Scan_w(j, w, t) == w)),
            z3.Implies(z3.And(0 <= j, j < N, start(m, w, t)), z3.And(Scan_i(j, w, t) == j, Scan_w(j, w, t) == w2)),
            z3.Implies(z3.And(0 <= j, j < N, z3.Not(start(m, w, t))), z3.And(Scan_i(j, w, t) == Scan_i(j + 1, w2, t), Scan_w(j, w, t) == Scan_w(j + 1, w2, t))),
        ]

    def stacks(self, E, st, lc):
        """locals that may hold the pending tokens"""
        return lc.typed(TS)

    def lemmas(self, E, lc):
        st = lc.st
        w, mk, o = self.view(E, st)
        if lc.it is not None:
            return self.scan_unfold(lc.idx, w, self.cur(E, lc)) if self.cur(E, lc) is not None else []
        out = []
        for nm, e, _ in self.stacks(E, st, lc):
            out += self.unfold(w, mk, e)
        return out

    def cur(self, E, lc):
        toks = [e for nm, e, _ in lc.typed(Tok)]
        return toks[-1] if toks else None

    def candidates(self, E, lc):
        st = lc.st
        w, mk, o = self.view(E, st)
        we, mke, oe = self.view(E, lc.entry)
        out = []
        if lc.it is not None:
            for nm, t, _ in lc.typed(Tok):
                out.append((f"scan-{nm}", z3.And(Scan_i(0, we, t) == Scan_i(lc.idx, w, t), Scan_w(0, we, t) == Scan_w(lc.idx, w, t))))
            out.append(("mark-unchanged", mk == mke))
            out.append(("output-unchanged", o == oe))
            return out
        init = z3.Unit(self.t)
        for nm, e, _ in self.stacks(E, st, lc):
            out.append((f"meaning-of-{nm}", z3.And(z3.Concat(o, Fin_o(w, mk, e)) == z3.Concat(self.out0, Fin_o(self.w0, self.mk0, init)), Fin_w(w, mk, e) == Fin_w(self.w0, self.mk0, init), Fin_m(w, mk, e) == Fin_m(self.w0, self.mk0, init))))
        return out

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        w, mk, o = self.view(E, st)
        init = z3.Unit(self.t)
        E.oblige(st, "output-is-exactly-the-replacement-stream", o == z3.Concat(self.out0, Fin_o(self.w0, self.mk0, init)))
        E.oblige(st, "manipulators-see-exactly-their-tokens", w == Fin_w(self.w0, self.mk0, init))
        E.oblige(st, "mark-is-kept-exactly", mk == Fin_m(self.w0, self.mk0, init))
        E.oblige(st, "manipulators-unchanged", E.embed(st, st.heap[self.b.lid].fields["manipulators"], MSeq) == self.ms)


class Consume(Builder):
    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        w, mk, o = self.view(E, st)
        E.oblige(st, "returns-pending-output", E.embed(st, res, TS) == self.out0)
        E.oblige(st, "empties-output", o == EMPTY)
        E.oblige(st, "keeps-mark-and-manipulators", z3.And(mk == self.mk0, w == self.w0, E.embed(st, st.heap[self.b.lid].fields["manipulators"], MSeq) == self.ms))
        E.oblige(st, "output-not-shared", z3.BoolVal(not (isinstance(res, L) and res == st.heap[self.b.lid].fields["output"])))

    def setup(self, E, st):
        a, k = super().setup(E, st)
        return a[:1], k


def mk(base, mod, meth):
    n = mod.upper() + "Builder"
    return type(f"{base.__name__}{mod.upper()}", (base,), {"fn": f"vanillaplusjs.build.{mod}.builder:{n}.{meth}", "title": f"{n}.{meth}", "mod": mod, "label": classmethod(lambda c: c.title)})



# ------------------------------------------------ JSYieldManipulator
class Gen:
    """A generator object of some subclass's handle(): trusted protocol."""


class GenLog:
    pass


YIELD, FALSE, LIST, OTHER, ERR = range(5)


def jstok():
    import vanillaplusjs.build.js.token as m
    return TRec("JSTok", {"type": TEnum(m.JSTokenType), "value": TOpt(TStr)})


class Yield(Contract):
    expect_paths = 3
    no_termination = True
    state0 = ()

    def setup(self, E, st):
        from vanillaplusjs.build.js.yield_manipulator import JSYieldManipulator
        self.T = jstok()
        self.TS = TSeq(self.T)
        self.node = self.T.const("node")
        self.stk = self.TS.const("stack0")
        self.log = st.alloc(ObjCell(GenLog, {"kind": C(None), "lst": C(None), "node": C(None), "stack": C(None)}))
        self.g0 = st.alloc(ObjCell(Gen, {"started": C(True)}))
        marked = self.state0 != "unmarked"
        f = {"state": C(self.state0), "stack": st.alloc(ListCell(seq=S(self.TS, self.stk))) if marked else C(None), "generator": self.g0 if self.state0 in ("skipping", "marking") else C(None)}
        if self.state0 == "unmarked":
            f["generator"] = self.g0  # a generator left over from an earlier replacement
        self.m = st.alloc(ObjCell(JSYieldManipulator, f))
        return [self.m, S(self.T, self.node)], {}

    def fld(self, st, n):
        return st.heap[self.m.lid].fields[n]

    def resume(self, E, st, node):
        """The generator runs to its next yield or end: any outcome."""
        out = []
        ns = self.fld(st, "stack")
        for k in range(5):
            s = st.copy()
            lst = C(None)
            if k == YIELD:
                r = C(None)
            elif k == ERR:
                r = Raised(KeyError, "from the generator")
            else:
                r = Raised(StopIteration)
                if k == LIST:
                    e = self.TS.fresh("answer")
                    lst = S(self.TS, e)
                    r.value = s.alloc(ListCell(seq=S(self.TS, e)))
                else:
                    r.value = C(False) if k == FALSE else C(None)
            seen = S(self.TS, E.embed(s, ns, self.TS)) if isinstance(ns, L) else C(None)
            s.heap[self.log.lid] = ObjCell(GenLog, {"kind": C(k), "lst": lst, "node": node, "stack": seen})
            out.append((s, r))
        return out

    def models(self):
        def nxt(E, st, args, kw):
            c = st.heap[args[0].lid]
            if c.cls is not Gen or c.fields["started"].v:
                raise Unsupported("next of something else")
            st.heap[args[0].lid] = ObjCell(Gen, {**c.fields, "started": C(True)})
            return self.resume(E, st, c.fields["node"])
        return {next: nxt}

    def getattr_hook(self, E, st, v, name):
        if isinstance(v, Lazy) and v.kind == "exc" and name == "value":
            return [(st, v.exc.value)]
        return None

    def method_hook(self, E, st, recv, name, args, kwargs):
        if recv == self.m and name == "handle":
            return [(st, st.alloc(ObjCell(Gen, {"started": C(False), "node": args[0]})))]
        if isinstance(recv, L) and isinstance(st.heap[recv.lid], ObjCell) and st.heap[recv.lid].cls is Gen and name == "send":
            return self.resume(E, st, args[0])
        return None

    def seq(self, E, st, v):
        return E.embed(st, v, self.TS)

    def logged(self, E, st):
        f = st.heap[self.log.lid].fields
        return f["kind"].v, f["lst"], f["node"], f["stack"]

    def is_state(self, E, st, s):
        v = self.fld(st, "state")
        E.oblige(st, f"state-becomes-{s}", z3.BoolVal(isinstance(v, C) and v.v == s))

    def eof(self):
        from vanillaplusjs.build.js.token import JSTokenType
        return self.T.get(self.node, "type") == TEnum(JSTokenType).member(JSTokenType.eof)


class StartMark(Yield):
    fn = "vanillaplusjs.build.js.yield_manipulator:JSYieldManipulator.start_mark"
    title = "JSYieldManipulator.start_mark"
    state0 = "unmarked"
    expect_paths = 3

    def post(self, E, pre, st, res):
        k, lst, node, _ = self.logged(E, st)
        E.oblige(st, "generator-ran-once-on-the-node", z3.BoolVal(k is not None) if k is None else E.embed(st, node, self.T) == self.node)
        if k is None:
            return
        if isinstance(res, Raised):
            E.oblige(st, "raises-only-for-misuse", B(k in (OTHER, ERR)) if k != YIELD else self.eof())
            return
        E.oblige(st, "misuse-is-refused", z3.Not(self.eof()) if k == YIELD else B(k not in (OTHER, ERR)))
        E.oblige(st, "marks-exactly-when-not-declined", E.embed(st, res, TBool) == B(k != FALSE))
        if k == FALSE:
            self.is_state(E, st, "unmarked")
        elif k == YIELD:
            self.is_state(E, st, "skipping")
            E.oblige(st, "stack-is-the-node", self.seq(E, st, self.fld(st, "stack")) == z3.Unit(self.node))
            g = self.fld(st, "generator")
            E.oblige(st, "generator-kept", B(isinstance(g, L) and g.lid != self.g0.lid and st.heap[g.lid].cls is Gen))
        else:
            self.is_state(E, st, "replacing")
            E.oblige(st, "replacement-kept", self.seq(E, st, self.fld(st, "stack")) == lst.e)


class ContinueMark(Yield):
    fn = "vanillaplusjs.build.js.yield_manipulator:JSYieldManipulator.continue_mark"
    expect_paths = 1

    def post(self, E, pre, st, res):
        k, lst, node, seen = self.logged(E, st)
        if self.state0 == "replacing":
            if self.no_raise(E, st, res):
                E.oblige(st, "returns-the-replacement", B(isinstance(res, L)) if not isinstance(res, L) else self.seq(E, st, res) == self.stk)
                self.is_state(E, st, "unmarked")
                E.oblige(st, "generator-not-run", B(k is None))
            return
        if self.state0 == "skipping":
            if self.no_raise(E, st, res):
                E.oblige(st, "keeps-the-mark", B(isinstance(res, C) and res.v is None))
                self.is_state(E, st, "marking")
                E.oblige(st, "generator-not-run", B(k is None))
                E.oblige(st, "stack-unchanged", self.seq(E, st, self.fld(st, "stack")) == self.stk)
                E.oblige(st, "generator-kept", B(self.fld(st, "generator") == self.g0))
            return
        both = z3.Concat(self.stk, z3.Unit(self.node))
        E.oblige(st, "generator-ran-once-on-the-node", B(False) if k is None else E.embed(st, node, self.T) == self.node)
        if k is None:
            return
        E.oblige(st, "generator-sees-every-marked-token", B(False) if not isinstance(seen, S) else seen.e == both)
        if isinstance(res, Raised):
            E.oblige(st, "raises-only-for-misuse", B(k in (OTHER, ERR)) if k != YIELD else self.eof())
            return
        E.oblige(st, "misuse-is-refused", z3.Not(self.eof()) if k == YIELD else B(k not in (OTHER, ERR)))
        if k == YIELD:
            E.oblige(st, "keeps-the-mark", B(isinstance(res, C) and res.v is None))
            self.is_state(E, st, "marking")
            E.oblige(st, "remembers-every-marked-token", self.seq(E, st, self.fld(st, "stack")) == both)
            E.oblige(st, "generator-kept", B(self.fld(st, "generator") == self.g0))
            return
        self.is_state(E, st, "unmarked")
        want = both if k == FALSE else lst.e
        E.oblige(st, "declined-tokens-come-back-unchanged" if k == FALSE else "returns-the-replacement", B(False) if not isinstance(res, L) else self.seq(E, st, res) == want)


CONT = [type(f"Continue_{s}", (ContinueMark,), {"state0": s, "title": f"JSYieldManipulator.continue_mark ({s})", "expect_paths": 3 if s == "marking" else 1}) for s in ("replacing", "skipping", "marking")]

BUILDERS = [mk(Builder, m, "handle_token") for m in ("html", "css", "js")] + [mk(Consume, m, "consume_tokens") for m in ("html", "css", "js")]
CONTRACTS = {"C06": BUILDERS + [StartMark] + CONT}
