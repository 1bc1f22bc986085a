"""Contracts of the text readers (C07).

Ghost state: the wrapped text stream is an object whose `$rest` is the text it
has not delivered yet.  The rest of a PeekableTextIO is buffer ++ $rest, and
PRE (the CSS input preprocessing) of that is the rest of a PreprocessedTextIO.
"""
import z3

from vc.contracts import Contract
from vc.engine import B, _and
from vc.values import *
from vc import trusted

M = "vanillaplusjs.build.ioutil"
Str = z3.StringSort()
EMP = z3.StringVal("")
NL, CR_, LF = z3.StringVal("\n"), z3.StringVal("\r"), z3.StringVal("\n")
ln = z3.Length


class TextStream:
    """A text stream: read(n) gives the next min(n, remaining) characters."""


def first(s, n):
    return z3.SubString(s, 0, n)


def minus(s, n):
    return z3.SubString(s, n, ln(s) - n)


def minlen(n, s):
    return z3.If(n <= ln(s), n, ln(s))


def stream_read(E, st, recv, args):
    """TextIOBase.read: trusted contract of the wrapped stream."""
    c = st.heap[recv.lid]
    R = c.fields["$rest"].e
    n = args[0] if args else C(-1)
    out = []
    ne = E.embed(st, n, TInt)
    neg, pos = E.fork(st, ne < 0)
    for s, whole in ((neg, True), (pos, False)):
        if s is None:
            continue
        a, b = TStr.fresh("got"), TStr.fresh("left")
        s.assume(R == z3.Concat(a, b), ln(a) == (ln(R) if whole else minlen(ne, R)))
        s.heap[recv.lid] = ObjCell(c.cls, {**c.fields, "$rest": S(TStr, b)})
        s2 = s.copy()
        out.append((s, S(TStr, a)))
        s2.assume(R == EMP)  # a stream may also answer None at its end
        if E.feasible(s2):
            out.append((s2, C(None)))
    return out


class ReaderContract(Contract):
    bag_elems = ()
    no_termination = True

    def method_hook(self, E, st, recv, name, args, kwargs):
        if isinstance(recv, L) and isinstance(st.heap[recv.lid], ObjCell) and st.heap[recv.lid].cls is TextStream:
            if name == "read":
                return stream_read(E, st, recv, args)
            raise Unsupported(f"text stream .{name}")
        return self.method2(E, st, recv, name, args, kwargs)

    def method2(self, E, st, recv, name, args, kwargs):
        return None

    def peekable(self, E, st, tag=""):
        cls = __import__(M, fromlist=["x"]).PeekableTextIO
        R, b, eof = TStr.const("rest0" + tag), TStr.const("buffer0" + tag), TBool.const("eof0" + tag)
        st.assume(z3.Implies(eof, R == EMP))
        fp = st.alloc(ObjCell(TextStream, {"$rest": S(TStr, R)}))
        return st.alloc(ObjCell(cls, {"fp": fp, "buffer": S(TStr, b), "seen_eof": S(TBool, eof)})), z3.Concat(b, R)

    def rest(self, E, st, p):
        c = st.heap[p.lid].fields
        return z3.Concat(E.embed(st, c["buffer"], TStr), E.embed(st, st.heap[c["fp"].lid].fields["$rest"], TStr))

    def inv(self, E, st, p):
        c = st.heap[p.lid].fields
        return z3.Implies(B(E.truth(st, c["seen_eof"])), E.embed(st, st.heap[c["fp"].lid].fields["$rest"], TStr) == EMP)


class PeekRead(ReaderContract):
    """PeekableTextIO.read(n), n == -1 or n >= 1."""

    fn = M + ":PeekableTextIO.read"
    title = "PeekableTextIO.read"
    consumes = True
    expect_paths = 6

    def setup(self, E, st):
        self.p, self.Z = self.peekable(E, st)
        self.n = TInt.const("n")
        st.assume(z3.Or(self.n == -1, self.n >= 1))
        return [self.p, S(TInt, self.n)], {}

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        want = z3.If(self.n == -1, ln(self.Z), minlen(self.n, self.Z))
        Z1 = self.rest(E, st, self.p)
        if isinstance(res, C) and res.v is None:
            E.oblige(st, "none-only-at-end", self.Z == EMP)
            E.oblige(st, "end-stays-end", Z1 == EMP)
            r = EMP
        else:
            r = E.embed(st, res, TStr)
            E.oblige(st, "end-is-none", ln(r) > 0)
            E.oblige(st, "exact-length", ln(r) == want)
            if self.consumes:
                E.oblige(st, "delivers-next-characters-and-advances", self.Z == z3.Concat(r, Z1))
            else:
                E.oblige(st, "shows-next-characters", z3.PrefixOf(r, self.Z))
                E.oblige(st, "does-not-advance", self.Z == Z1)
        E.oblige(st, "invariant", self.inv(E, st, self.p))

    # use at call sites (receiver: an abstract PeekableTextIO, see AbsPeekable)
    def apply(self, E, st, args, kwargs):
        p = args[0]
        n = kwargs.get("n", args[1] if len(args) > 1 else C(-1 if self.consumes else 1))
        ne = E.embed(st, n, TInt)
        c = st.heap[p.lid]
        Z = c.fields["$rest"].e
        E.oblige(st, "peekable-called-with-a-valid-length", z3.Or(ne == -1, ne >= 1))
        end, more = E.fork(st, Z == EMP)
        out = []
        if end is not None:
            out.append((end, C(None)))
        if more is not None:
            a, b = TStr.fresh("got"), TStr.fresh("left")
            more.assume(Z == z3.Concat(a, b), ln(a) == z3.If(ne == -1, ln(Z), minlen(ne, Z)), ln(a) > 0)
            self.pre_facts(E, more, Z, a, b)
            if self.consumes:
                more.heap[p.lid] = ObjCell(c.cls, {**c.fields, "$rest": S(TStr, b)})
            out.append((more, S(TStr, a)))
        return out

    def pre_facts(self, E, st, Z, a, b):
        """Instances of the lemmas about the preprocessing function (see LEMMAS)."""
        split_ok = z3.Not(z3.And(z3.SuffixOf(CR_, a), z3.PrefixOf(NL, b)))
        st.assume(z3.Implies(split_ok, PRE(Z) == z3.Concat(PRE(a), PRE(b))))
        st.assume(z3.Implies(ln(a) > 0, ln(PRE(a)) > 0), ln(PRE(a)) <= ln(a), 2 * ln(PRE(a)) >= ln(a))
        pa = PRE(a)
        st.assume(z3.Implies(ln(a) > 0, z3.And(z3.PrefixOf(first(pa, ln(pa) - 1), PRE(Z)), ln(PRE(Z)) >= ln(pa))))
        # \r\n pair: the newline belongs to the carriage return before it
        b1 = minus(b, 1)
        st.assume(z3.Implies(z3.Not(split_ok), PRE(Z) == z3.Concat(pa, PRE(b1))))


class PeekPeek(PeekRead):
    fn = M + ":PeekableTextIO.peek"
    title = "PeekableTextIO.peek"
    consumes = False


CRF = z3.Function("crlf_to_lf", Str, Str)  # CARRIAGE_RETURN_LIKE.sub("\n", .)
SUR = z3.Function("surrogates_replaced", Str, Str)  # SURROGATE.sub("\uFFFD", .)


def PRE(x):
    return SUR(CRF(x))


LEMMAS = """crlf_to_lf(a++b) == crlf_to_lf(a)++crlf_to_lf(b) unless a ends in \\r and b starts with \\n, in which case the pair maps to one newline; length between half and all of the input; all but the last character of the image of a prefix is a prefix of the image"""
trusted.ASSUME["C07"] = {"trusted": ["regular-expression substitution is an uninterpreted function with these lemmas (checked exhaustively for all strings up to length 7 over {a, \\r, \\n, \\f, surrogate} by the run-time part): " + LEMMAS, "contract of the wrapped text stream: read(n) gives exactly the next min(n, remaining) characters"]}


class PreRead(ReaderContract):
    """PreprocessedTextIO.read(n): delivers exactly the preprocessed text."""

    fn = M + ":PreprocessedTextIO.read"
    title = "PreprocessedTextIO.read"
    consumes = True
    modular = (PeekRead, PeekPeek)
    expect_paths = 3
    timeout = 15.0

    def setup(self, E, st):
        mod = __import__(M, fromlist=["x"])
        self.Z = TStr.const("raw_rest")
        self.p = st.alloc(ObjCell(mod.PeekableTextIO, {"$rest": S(TStr, self.Z)}))
        self.q = st.alloc(ObjCell(mod.PreprocessedTextIO, {"fp": self.p}))
        self.n = TInt.const("n")
        st.assume(z3.Or(self.n == -1, self.n >= 1))
        st.assume(PRE(EMP) == EMP, z3.Implies(self.Z != EMP, ln(PRE(self.Z)) > 0))
        return [self.q, S(TInt, self.n)], {}

    def method2(self, E, st, recv, name, args, kwargs):
        mod = __import__(M, fromlist=["x"])
        if isinstance(recv, C) and hasattr(recv.v, "pattern") and name == "sub" and len(args) == 2 and isinstance(args[0], C):
            f = {(r"\r\n|\r|\f", "\n", 32): CRF, (r"[\ud800-\udfff]", "\uFFFD", 32): SUR}.get((recv.v.pattern, args[0].v, recv.v.flags))
            if f is None:
                raise Unsupported(f"re.sub({recv.v.pattern!r}, {args[0].v!r})")
            return [(st, S(TStr, f(E.embed(st, args[1], TStr))))]
        return None

    def candidates(self, E, lc):
        st = lc.st
        Z1 = st.heap[self.p.lid].fields["$rest"].e
        out = [("nothing-consumed", Z1 == self.Z)]
        for nm, e, e0 in lc.typed(TStr):
            out.append((f"{nm}-delivered", PRE(self.Z) == z3.Concat(e, PRE(Z1))))
            out.append((f"{nm}-nonempty", ln(e) > 0))
            out.append((f"{nm}-at-most-n", z3.Or(self.n == -1, ln(e) <= self.n)))
        for nm, e, e0 in lc.typed(TInt):
            out.append((f"{nm}>n", e >= self.n + 1))
            out.append((f"{nm}==-1", z3.Implies(self.n == -1, e == -1)))
            out.append((f"{nm}>=1", z3.Implies(self.n >= 1, e >= 1)))
        return out

    def measures(self, E, lc):
        Z1 = lc.st.heap[self.p.lid].fields["$rest"].e
        yield "raw text left", ln(Z1)
        for nm, e, e0 in lc.typed(TInt):
            yield f"raw text beyond {nm}", ln(self.Z) + self.n + 2 - e

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        P0, Z1 = PRE(self.Z), st.heap[self.p.lid].fields["$rest"].e
        want = z3.If(self.n == -1, ln(P0), minlen(self.n, P0))
        if isinstance(res, C) and res.v is None:
            E.oblige(st, "none-only-at-end", self.Z == EMP)
            return
        r = E.embed(st, res, TStr)
        E.oblige(st, "end-is-none", ln(r) > 0)
        E.oblige(st, "exact-length", ln(r) == want)
        if self.consumes:
            E.oblige(st, "delivers-preprocessed-text-and-advances", P0 == z3.Concat(r, PRE(Z1)))
        else:
            E.oblige(st, "shows-preprocessed-text", z3.PrefixOf(r, P0))
            E.oblige(st, "does-not-advance", Z1 == self.Z)


class PrePeek(PreRead):
    fn = M + ":PreprocessedTextIO.peek"
    title = "PreprocessedTextIO.peek"
    consumes = False


CONTRACTS = {"C07": [PeekRead, PeekPeek, PreRead, PrePeek]}
