"""C05: the JavaScript tokenizer and serializer.

Ghost state: the reader is an object whose `$rest` is the (preprocessed) text
it has not delivered yet (its contract is proved for C07).  What a lexical
unit stands for is a recursive function of the text: for each kind of unit,
VAL(R) is its value, REM(R) the text after it and OK(R) whether it is properly
ended; each is given by its step equations, instantiated at the texts the code
looks at.
"""
import z3

from vc.contracts import Contract
from vc.engine import B, _and, _or
from vc.values import *
from vc import trusted
from vc.solver import plain
from contracts.js import IsIdStart as _IdStart, IsIdContinue as _IdContinue

T = "vanillaplusjs.build.js.tokenizer"
Str = z3.StringSort()
EMP = z3.StringVal("")
ln = z3.Length
sv = strval
HEX = "0123456789abcdefABCDEF"


_rests = {}  # id of rest(X, m) -> (term, X, m)


def _base(s):
    r = _rests.get(s.get_id())
    return (r[1], r[2]) if r is not None else (s, 0)


def first(s, n=1):
    """the first n characters (fewer if there are not that many)"""
    x, m = _base(s)
    return z3.SubString(x, m, n)


def rest(s, n=1):
    """what follows the first n characters; n >= 0"""
    x, m = _base(s)
    k = m + n
    t = z3.SubString(x, k, ln(x) - k)
    _rests[t.get_id()] = (t, x, k)
    return t


def oneof(c, chars):
    return z3.Or(*[c == sv(x) for x in chars])


NLS = "\n\u2028\u2029"
# ECMAScript WhiteSpace: TAB VT FF ZWNBSP and the Zs category
WSS = "\t\x0b\x0c\ufeff" + "".join(chr(k) for k in (0x20, 0xA0, 0x1680, *range(0x2000, 0x200B), 0x202F, 0x205F, 0x3000))
IDS = z3.Function("id_start", Str, z3.BoolSort())
IDC = z3.Function("id_continue", Str, z3.BoolSort())
# defined by esc and esc_parts below; opaque at call sites
ESCP = z3.Function("starts_with_unicode_escape", Str, z3.BoolSort())
ESCV = z3.Function("unicode_escape_value", Str, Str)
ESCN = z3.Function("unicode_escape_length", Str, z3.IntSort())


class Text:
    """The reader: peek and read per the contract proved for PreprocessedTextIO."""


class LexContract(Contract):
    no_termination = True
    timeout = 12.0
    strings = True
    reader = None

    def text(self, E, st, name="text"):
        self.Z = TStr.const(name)
        self.p = st.alloc(ObjCell(Text, {"$rest": S(TStr, self.Z)}))
        return self.p

    def rest(self, st):
        return st.heap[self.p.lid].fields["$rest"].e

    def method_hook(self, E, st, recv, name, args, kwargs):
        if not (isinstance(recv, L) and isinstance(st.heap[recv.lid], ObjCell) and st.heap[recv.lid].cls is Text):
            return None
        n = kwargs.get("n", args[0] if args else C(1 if name == "peek" else -1))
        if name not in ("peek", "read"):
            raise Unsupported(f"reader.{name}")
        ne = E.embed(st, n, TInt)
        R = st.heap[recv.lid].fields["$rest"].e
        E.oblige(st, f"{name}-length-positive", ne >= 1)
        end, more = E.fork(st, R == EMP)
        out = []
        if end is not None:
            self.looked(E, end, R)
            out.append((end, NONE))
        if more is not None:
            a, b = first(R, ne), rest(R, ne)
            size = [z3.If(ne <= ln(R), ne, ln(R)) == ln(a), R == z3.Concat(a, b)]
            more.assume(*(size if z3.is_true(z3.simplify(ne == 1)) else map(plain, size)), ln(a) > 0)
            if name == "read":
                more.heap[recv.lid] = ObjCell(Text, {"$rest": S(TStr, b)})
            self.looked(E, more, R)
            out.append((more, S(TStr, a)))
        return out

    def looked(self, E, st, R):
        for f in self.steps(R):
            st.assume(f)

    def steps(self, R):
        return []

    def funs(self):
        return ()

    def candidates(self, E, lc):
        R = self.rest(lc.st)
        R0 = self.rest(lc.entry)
        out = []
        for V, Rm, Ok in self.funs():
            out.append((f"{Rm.name()}-same", Rm(R) == Rm(R0)))
            if Ok is not None:
                out.append((f"{Ok.name()}-same", Ok(R) == Ok(R0)))
            for nm, e, e0 in lc.typed(TStr):
                if e0 is not None:
                    out.append((f"{nm}-{V.name()}", z3.Concat(e0, V(R0)) == z3.Concat(e, V(R))))
        for nm, e, e0 in lc.typed(TStr):
            if e0 is not None:
                out.append((f"{nm}-verbatim", plain(z3.Concat(e0, R0) == z3.Concat(e, R))))
                out.append((f"{nm}-nonempty", ln(e) > 0))
        return out

    def tok(self, E, st, res):
        """-> (type, value, extra) of a token dict; None for None"""
        if isinstance(res, C) and res.v is None:
            return None
        d = st.heap[res.lid].items
        return d["type"], d["value"], d.get("extra")

    def typ(self, E, st, v, name):
        from vanillaplusjs.build.js.token import JSTokenType
        return B(E.eq(st, v, C(JSTokenType[name])))


def munch(name, cond):
    """A maximal run of the characters that satisfy cond."""
    V, Rm = z3.Function(name + "_value", Str, Str), z3.Function(name + "_rest", Str, Str)

    def steps(R):
        go = z3.And(R != EMP, cond(R))
        c, r = first(R), rest(R)
        return [z3.Implies(go, z3.And(V(R) == z3.Concat(c, V(r)), Rm(R) == Rm(r))), z3.Implies(z3.Not(go), z3.And(V(R) == EMP, Rm(R) == R))]
    return V, Rm, steps


WSV, WSR, ws_steps = munch("whitespace", lambda R: oneof(first(R), WSS))
SCV, SCR, sc_steps = munch("line_comment", lambda R: z3.Not(oneof(first(R), NLS)))
MCV, MCR0, mc_steps0 = munch("block_comment", lambda R: first(R, 2) != sv("*/"))


class IsNewline(LexContract):
    fn = T + ":_is_newline"

    def setup(self, E, st):
        self.c = TStr.const("char")
        st.assume(ln(self.c) == 1)
        return [S(TStr, self.c)], {}

    spec = NLS

    def post(self, E, pre, st, res):
        if self.no_raise(E, st, res):
            E.oblige(st, "exactly-the-characters-of-the-language", B(E.truth(st, res)) == oneof(self.c, self.spec))

    def apply(self, E, st, args, kwargs):
        a = E.embed(st, args[0], TStr)
        E.oblige(st, "called-with-one-character", ln(a) == 1)
        return [(st, E.wrap(st, oneof(a, self.spec), TBool))]


class IsWhitespace(IsNewline):
    fn = T + ":_is_whitespace"
    spec = WSS


class Whitespace(LexContract):
    fn = T + ":_consume_whitespace"
    modular = (IsWhitespace,)
    V, R, st_ = WSV, WSR, staticmethod(ws_steps)
    kind = "whitespace"

    def funs(self):
        return ((type(self).V, type(self).R, None),)

    def steps(self, R):
        return type(self).st_(R)

    def setup(self, E, st):
        return [self.text(E, st)], {}

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        V, Rm = type(self).V, type(self).R
        t = self.tok(E, st, res)
        R1 = self.rest(st)
        if t is None:
            E.oblige(st, "nothing-there", V(self.Z) == EMP)
            E.oblige(st, "nothing-read", R1 == self.Z)
            return
        E.oblige(st, "kind", self.typ(E, st, t[0], self.kind))
        E.oblige(st, "value-is-all-of-it", E.embed(st, t[1], TStr) == V(self.Z))
        E.oblige(st, "nonempty", V(self.Z) != EMP)
        E.oblige(st, "reads-exactly-it", R1 == Rm(self.Z))

    def apply(self, E, st, args, kwargs):
        from vanillaplusjs.build.js.token import JSTokenType
        p = args[0]
        R = st.heap[p.lid].fields["$rest"].e
        V, Rm = type(self).V, type(self).R
        for f in self.steps(R):
            st.assume(f)
        no, yes = E.fork(st, V(R) == EMP)
        out = []
        if no is not None:
            out.append((no, NONE))
        if yes is not None:
            yes.heap[p.lid] = ObjCell(Text, {"$rest": S(TStr, Rm(R))})
            out.append((yes, yes.alloc(DictCell(items={"type": C(JSTokenType[self.kind]), "value": S(TStr, V(R))}))))
        return out


class LineComment(LexContract):
    """Characters up to the end of the line."""

    fn = T + ":_consume_single_line_comment"
    modular = (IsNewline,)
    V, R, st_ = SCV, SCR, staticmethod(sc_steps)
    funs, steps, setup = Whitespace.funs, Whitespace.steps, Whitespace.setup
    after = staticmethod(lambda R: R)

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        t = self.tok(E, st, res)
        E.oblige(st, "gives-a-token", B(t is not None))
        if t is None:
            return
        E.oblige(st, "kind", self.typ(E, st, t[0], "comment"))
        E.oblige(st, "value-is-its-text", E.embed(st, t[1], TStr) == type(self).V(self.Z))
        E.oblige(st, "reads-exactly-it", self.rest(st) == type(self).after(type(self).R(self.Z)))

    def apply(self, E, st, args, kwargs):
        from vanillaplusjs.build.js.token import JSTokenType
        p = args[0]
        R = st.heap[p.lid].fields["$rest"].e
        for f in self.steps(R):
            st.assume(f)
        st.heap[p.lid] = ObjCell(Text, {"$rest": S(TStr, type(self).after(type(self).R(R)))})
        return [(st, st.alloc(DictCell(items={"type": C(JSTokenType.comment), "value": S(TStr, type(self).V(R))})))]


class BlockComment(LineComment):
    """Characters up to the next */ (which is read too) or the end."""

    fn = T + ":_consume_multi_line_comment"
    V, R, st_ = MCV, MCR0, staticmethod(mc_steps0)
    after = staticmethod(lambda R: z3.If(R == EMP, EMP, rest(R, 2)))


class Comment(LexContract):
    fn = T + ":_consume_comment"
    modular = (LineComment, BlockComment)
    setup = Whitespace.setup

    @staticmethod
    def spec(Z):
        Z2 = rest(Z, 2)
        line, block = first(Z, 2) == sv("//"), first(Z, 2) == sv("/*")
        return line, block, z3.If(line, SCV(Z2), MCV(Z2)), z3.If(line, SCR(Z2), BlockComment.after(MCR0(Z2)))

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        t = self.tok(E, st, res)
        line, block, val, rem = self.spec(self.Z)
        if t is None:
            E.oblige(st, "no-comment-here", z3.Not(z3.Or(line, block)))
            E.oblige(st, "nothing-read", self.rest(st) == self.Z)
            return
        E.oblige(st, "is-a-comment", z3.Or(line, block))
        E.oblige(st, "kind", self.typ(E, st, t[0], "comment"))
        E.oblige(st, "value-is-its-text", E.embed(st, t[1], TStr) == val)
        E.oblige(st, "reads-exactly-it", self.rest(st) == rem)

    def apply(self, E, st, args, kwargs):
        from vanillaplusjs.build.js.token import JSTokenType
        p = args[0]
        R = st.heap[p.lid].fields["$rest"].e
        line, block, val, rem = self.spec(R)
        yes, no = E.fork(st, z3.Or(line, block))
        out = []
        if no is not None:
            out.append((no, NONE))
        if yes is not None:
            yes.heap[p.lid] = ObjCell(Text, {"$rest": S(TStr, rem)})
            out.append((yes, yes.alloc(DictCell(items={"type": C(JSTokenType.comment), "value": S(TStr, val)}))))
        return out



def ishex(c):
    return oneof(c, HEX)


CHR = z3.Function("chr_of", z3.IntSort(), Str)
OK16 = z3.Function("int_ok_16", Str, z3.BoolSort())
VAL16 = z3.Function("int_val_16", Str, z3.IntSort())


def at(s, k):
    x, m = _base(s)
    return z3.SubString(x, m + k, 1)


def hexrun(s, a, b):
    return z3.And(*[ishex(at(s, k)) for k in range(a, b)])


def sub(s, a, b):
    x, m = _base(s)
    return z3.SubString(x, m + a, b - a)


def brace_esc(s, k):
    """u{X...} whose closing bracket is at k"""
    return z3.And(first(s, 2) == sv("u{"), at(s, k) == sv("}"), hexrun(s, 2, k), VAL16(sub(s, 2, k)) <= 0x10FFFF)


def four_esc(s):
    return z3.And(at(s, 0) == sv("u"), at(s, 1) != sv("{"), hexrun(s, 1, 5))


KS = range(3, 9)


def esc(s):
    """s starts with a unicode escape sequence (without its backslash)"""
    return z3.Or(four_esc(s), *[brace_esc(s, k) for k in KS])


def esc_parts(s):
    """-> (character, length) of the escape s starts with"""
    v, n = CHR(VAL16(sub(s, 1, 5))), z3.IntVal(5)
    for k in KS:
        v = z3.If(brace_esc(s, k), CHR(VAL16(sub(s, 2, k))), v)
        n = z3.If(brace_esc(s, k), z3.IntVal(k + 1), n)
    return v, n


def esc_lemmas(P, V, N, r):
    """What users of escapes need to know of them (obligations of IsEscape)."""
    R = z3.Concat(sv("\\"), r)
    return [
        P(r) == P(first(r, 9)),
        z3.Implies(P(r), z3.And(N(r) >= 4, N(r) <= 9, N(r) <= ln(r), at(r, 0) == sv("u"))),
        z3.Implies(z3.And(P(r), at(r, 1) == sv("{")), z3.And(z3.IndexOf(first(R, 10), sv("}"), 0) == N(r), z3.Contains(first(R, 10), sv("}")))),
        z3.Implies(z3.And(P(r), at(r, 1) != sv("{")), N(r) == 5),
        z3.Implies(P(r), z3.Concat(z3.SubString(first(R, 10), 0, N(r) + 1), z3.SubString(R, 1 + N(r), ln(R) - (1 + N(r)))) == R),
    ]


def esc_facts(R, which=(0, 1)):
    """the lemmas for what follows the backslash that R starts with, and that
    a character stands for one character"""
    r = rest(R)
    fs = esc_lemmas(ESCP, ESCV, ESCN, r)
    out = [z3.Implies(first(R) == sv("\\"), z3.substitute(fs[k], (z3.Concat(sv("\\"), r), R))) for k in which]
    for k, f in zip(which, out):
        if k > 1:
            plain(f)
    return out + [ln(ESCV(r)) == 1]


def escape_lemma_obligations():
    """esc_lemmas with P, N as esc and esc_parts define them; the third in steps."""
    r = z3.String("remaining")
    N = lambda s: esc_parts(s)[1]
    fs = esc_lemmas(esc, None, N, r)
    n = z3.Int("n")
    cut_at = z3.Concat(z3.SubString(first(r, 10), 0, n), z3.SubString(r, n, ln(r) - n)) == r
    out = [("0", fs[0]), ("1", fs[1]), ("3", fs[3]), ("4-any", z3.Implies(z3.And(n >= 1, n <= 10, n <= ln(r)), cut_at))]
    R = z3.Concat(sv("\\"), r)
    AA, BB = z3.Strings("AA BB")
    br = sv("}")
    for k in KS:
        A, cs = sub(R, 0, k + 1), [at(R, j) for j in range(k + 1)]
        xs = [z3.String(f"x{j}") for j in range(k + 1)]
        h = brace_esc(r, k)
        cut = first(R, 10) == z3.Concat(A, br, sub(R, k + 2, 10))
        out += [
            (f"2-{k}-no-bracket-before", z3.Implies(h, z3.And(ln(r) > k, *[z3.And(c != br, ln(c) == 1) for c in cs]))),
            (f"2-{k}-characters", z3.Implies(ln(r) > k, z3.And(A == z3.Concat(*cs), ln(A) == k + 1))),
            (f"2-{k}-not-in-any", z3.Implies(z3.And(*[z3.And(ln(x) == 1, x != br) for x in xs]), z3.Not(z3.Contains(z3.Concat(*xs), br)))),
            (f"2-{k}-index-in-any", z3.Implies(z3.And(z3.Not(z3.Contains(AA, br)), ln(AA) == k + 1), z3.And(z3.IndexOf(z3.Concat(AA, br, BB), br, 0) == k + 1, z3.Contains(z3.Concat(AA, br, BB), br)))),
            (f"2-{k}-cut", z3.Implies(z3.And(ln(r) > k, at(r, k) == br), cut)),
            (f"2-{k}-length", z3.Implies(h, N(r) == k + 1)),
            (f"2-{k}", z3.Implies(z3.And(h, z3.Not(z3.Contains(A, br)), cut, ln(A) == k + 1, N(r) == k + 1), z3.And(z3.IndexOf(first(R, 10), br, 0) == N(r), z3.Contains(first(R, 10), br)))),
        ]
    return out


def m_int(E, st, args, kw):
    from vc.calls import b_int
    base = args[1] if len(args) > 1 else kw.get("base")
    v = args[0]
    if isinstance(v, S) and v.t == TStr and isinstance(base, C) and base.v == 16:
        for n in getattr(E.contract, "int_lengths", range(1, 7)):
            st.assume(z3.Implies(z3.And(ln(v.e) == n, hexrun(v.e, 0, n)), z3.And(OK16(v.e), VAL16(v.e) >= 0, VAL16(v.e) < 16 ** n)))
    return b_int(E, st, args, kw)


def m_chr(E, st, args, kw):
    v = args[0]
    if isinstance(v, C):
        return [(st, C(chr(v.v)))]
    ok, bad = E.fork(st, z3.And(v.e >= 0, v.e <= 0x10FFFF))
    out = []
    if ok is not None:
        ok.assume(ln(CHR(v.e)) == 1)
        out.append((ok, S(TStr, CHR(v.e))))
    if bad is not None:
        out.append((bad, Raised(ValueError)))
    return out


NUM = {int: m_int, chr: m_chr}


class IsEscape(LexContract):
    fn = T + ":_is_unicode_escape_sequence"

    def models(self):
        return NUM

    def setup(self, E, st):
        self.s = TStr.const("nine")
        st.assume(ln(self.s) <= 9)
        return [S(TStr, self.s)], {}

    def candidates(self, E, lc):
        s = self.s
        out = []
        for nm, e, e0 in lc.typed(TInt):
            for d in (0, 1, 2, 3):
                out.append((f"hex-below-{nm}+{d}", z3.And(*[z3.Implies(k < e + d, ishex(at(s, k))) for k in range(2, 9)])))
            out.append((f"{nm}>=0", e >= 0))
        out.append(("hex-below-iteration", z3.And(*[z3.Implies(k < lc.idx + 2, ishex(at(s, k))) for k in range(2, 9)])) if lc.idx is not None else ("true", z3.BoolVal(True)))
        return out

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        E.oblige(st, "exactly-the-escapes-of-the-language", B(E.truth(st, res)) == esc(self.s))
        if not getattr(self, "lemmas_done", False):
            self.lemmas_done = True
            for k, f in escape_lemma_obligations():
                E.oblige(State(), f"lemma-{k}", f)

    def apply(self, E, st, args, kwargs):
        a = E.embed(st, args[0], TStr)
        E.oblige(st, "called-with-at-most-nine-characters", ln(a) <= 9)
        return [(st, S(TBool, ESCP(a)))]


class ConsumeEscape(LexContract):
    fn = T + ":_consume_unicode_escape_sequence"
    models = IsEscape.models

    def setup(self, E, st):
        p = self.text(E, st)
        st.assume(esc(self.Z))
        return [p], {}

    def candidates(self, E, lc):
        out = super().candidates(E, lc)
        R = self.rest(lc.st)
        for nm, e, e0 in lc.typed(TStr):
            for d in (1, 2):
                out.append((f"{nm}-after-{d}", z3.Concat(first(self.Z, d), e, R) == self.Z))
            out.append((f"{nm}-open", z3.Not(z3.Contains(e, sv("}")))))
            out.append((f"{nm}-short", ln(e) <= 4))
            out.append((f"{nm}-no-longer", ln(e) <= 6))
        return out

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        v, n = esc_parts(self.Z)
        if isinstance(res, C) and res.v is None:
            E.oblige(st, "gives-a-character", z3.BoolVal(False))
            return
        E.oblige(st, "gives-its-character", E.embed(st, res, TStr) == v)
        E.oblige(st, "reads-exactly-it", self.rest(st) == rest(self.Z, n))

    def apply(self, E, st, args, kwargs):
        p = args[0]
        R = st.heap[p.lid].fields["$rest"].e
        E.oblige(st, "called-at-an-escape", ESCP(R))
        v, n = ESCV(R), ESCN(R)
        st.assume(ln(v) == 1)
        st.heap[p.lid] = ObjCell(Text, {"$rest": S(TStr, rest(R, n))})
        return [(st, S(TStr, v))]



class IdStartUse(_IdStart):
    """is_id_start at call sites (proved, with its table, for C19)."""

    prop_fn = staticmethod(IDS)

    def apply(self, E, st, args, kwargs):
        a = E.embed(st, args[0], TStr)
        E.oblige(st, "called-with-one-character", ln(a) == 1)
        return [(st, S(TBool, type(self).prop_fn(a)))]


class IdContinueUse(IdStartUse):
    fn = _IdContinue.fn
    prop_fn = staticmethod(IDC)


IV0, IV1 = z3.Function("identifier_value", Str, Str), z3.Function("identifier_more", Str, Str)
IR0, IR1 = z3.Function("identifier_rest", Str, Str), z3.Function("identifier_more_rest", Str, Str)


# characters without ID_Continue (Unicode), as the interpreter's database has it
NOT_NAMES = "\\" + NLS + "".join(chr(k) for k in range(33, 127) if not chr(k).isalnum() and chr(k) not in "_\\")
assert not any(("a" + ch).isidentifier() for ch in NOT_NAMES) and not any(ch.isidentifier() for ch in "0123456789")


def id_steps(R):
    out = []
    c, r = first(R), rest(R)
    v, n = ESCV(r), ESCN(r)
    e = z3.And(R != EMP, c == sv("\\"), ESCP(r))
    out += esc_facts(R)
    for V, Rm, ok in ((IV0, IR0, z3.Or(oneof(c, "$_"), IDS(c))), (IV1, IR1, z3.Or(oneof(c, "$\u200c\u200d"), IDC(c)))):
        ok = z3.And(R != EMP, ok)
        out += [
            z3.Implies(e, z3.And(V(R) == z3.Concat(v, IV1(rest(r, n))), Rm(R) == IR1(rest(r, n)), ln(v) == 1)),
            z3.Implies(z3.And(z3.Not(e), ok), z3.And(V(R) == z3.Concat(c, IV1(r)), Rm(R) == IR1(r))),
            z3.Implies(z3.And(z3.Not(e), z3.Not(ok)), z3.And(V(R) == EMP, Rm(R) == R)),
        ]
    out.append(z3.Implies(oneof(c, NOT_NAMES), z3.Not(z3.Or(IDS(c), IDC(c)))))
    out.append(z3.Implies(oneof(c, "0123456789"), z3.Not(IDS(c))))
    return out


RESERVED = {"as": "keyword_as", "from": "keyword_from", "import": "keyword_import"}


class Identifier(LexContract):
    fn = T + ":_consume_identifier"
    modular = (IsEscape, ConsumeEscape, IdStartUse, IdContinueUse)
    setup = Whitespace.setup

    def steps(self, R):
        return id_steps(R)

    def candidates(self, E, lc):
        out = super().candidates(E, lc)
        R = self.rest(lc.st)
        for nm, e, e0 in lc.typed(TStr):
            out.append((f"{nm}-so-far", z3.If(e == EMP, IV0(R), z3.Concat(e, IV1(R))) == IV0(self.Z)))
            out.append((f"{nm}-so-far-rest", z3.If(e == EMP, IR0(R), IR1(R)) == IR0(self.Z)))
        return out

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        t = self.tok(E, st, res)
        for f in self.steps(self.Z):
            st.assume(f)
        R1, v = self.rest(st), IV0(self.Z)
        if t is None:
            E.oblige(st, "no-identifier-here", v == EMP)
            E.oblige(st, "nothing-read", R1 == self.Z)
            return
        E.oblige(st, "is-an-identifier", v != EMP)
        E.oblige(st, "reads-exactly-it", R1 == IR0(self.Z))
        word = z3.Or(*[v == sv(w) for w in RESERVED])
        for w, k in RESERVED.items():
            E.oblige(st, f"{w}-is-a-keyword", self.typ(E, st, t[0], k) == (v == sv(w)))
        E.oblige(st, "others-are-identifiers", self.typ(E, st, t[0], "identifier") == z3.Not(word))
        if isinstance(t[1], C) and t[1].v is None:
            E.oblige(st, "value-is-its-name", word)
        else:
            E.oblige(st, "value-is-its-name", z3.And(z3.Not(word), E.embed(st, t[1], TStr) == v))

    def apply(self, E, st, args, kwargs):
        from vanillaplusjs.build.js.token import JSTokenType
        p = args[0]
        R = st.heap[p.lid].fields["$rest"].e
        for f in self.steps(R):
            st.assume(f)
        no, yes = E.fork(st, IV0(R) == EMP)
        out = []
        if no is not None:
            out.append((no, NONE))
        if yes is not None:
            yes.heap[p.lid] = ObjCell(Text, {"$rest": S(TStr, IR0(R))})
            ts = [z3.And(IV0(R) == sv(w)) for w in RESERVED]
            for w, k in RESERVED.items():
                y, yes2 = E.fork(yes, IV0(R) == sv(w))
                if y is not None:
                    out.append((y, y.alloc(DictCell(items={"type": C(JSTokenType[k]), "value": NONE}))))
                if yes2 is None:
                    return out
                yes = yes2
            out.append((yes, yes.alloc(DictCell(items={"type": C(JSTokenType.identifier), "value": S(TStr, IV0(R))}))))
        return out


# ---- string literals: value, rest and validity of what follows the quote
SVAL = z3.Function("string_value", Str, Str, Str)
SREM = z3.Function("string_rest", Str, Str, Str)
SOK = z3.Function("string_ended", Str, Str, z3.BoolSort())
SIMPLE = {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f", "v": "\v", "0": "\0", **{c: "" for c in NLS}}


def hex_esc(r):
    return z3.And(first(r) == sv("x"), hexrun(r, 1, 3))


# defined by hex_esc; opaque at call sites
HEXP = z3.Function("starts_with_hex_escape", Str, z3.BoolSort())


def hex_lemmas(P, r):
    return [P(r) == P(first(r, 3)), z3.Implies(P(r), z3.And(ln(r) >= 3, at(r, 0) == sv("x"), hexrun(r, 1, 3)))]


def str_steps(q, R):
    c, r = first(R), rest(R)
    c2, r2 = first(r), rest(r)
    v, n = ESCV(r), ESCN(r)
    simple = c2
    for k, x in SIMPLE.items():
        simple = z3.If(c2 == sv(k), sv(x), simple)

    def step(cond, val, after):
        return z3.Implies(cond, z3.And(SVAL(q, R) == z3.Concat(val, SVAL(q, after)), SREM(q, R) == SREM(q, after), SOK(q, R) == SOK(q, after)))
    dead = z3.Or(R == EMP, c == sv("\n"))
    end = z3.And(z3.Not(dead), c == q)
    back = z3.And(z3.Not(dead), c != q, c == sv("\\"))
    e1 = z3.And(back, ESCP(r))
    e2 = z3.And(back, z3.Not(ESCP(r)), HEXP(r))
    e3 = z3.And(back, z3.Not(ESCP(r)), z3.Not(HEXP(r)))
    return esc_facts(R, (0, 1, 2, 3, 4)) + hex_lemmas(HEXP, r) + [
        z3.Implies(dead, z3.And(SREM(q, R) == R, z3.Not(SOK(q, R)))),
        z3.Implies(end, z3.And(SVAL(q, R) == EMP, SREM(q, R) == r, SOK(q, R))),
        step(e1, v, rest(r, n)),
        step(e2, CHR(VAL16(sub(r, 1, 3))), rest(r, 3)),
        z3.Implies(z3.And(e3, r == EMP), z3.And(SREM(q, R) == EMP, z3.Not(SOK(q, R)))),
        step(z3.And(e3, r != EMP), simple, r2),
        step(z3.And(z3.Not(dead), c != q, c != sv("\\")), c, r),
    ]


def lexed(E, st, p, ok, kind, after):
    """fork on ok -> [(state that has read up to after, token type)]"""
    from vanillaplusjs.build.js.token import JSTokenType
    a, b = E.fork(st, ok)
    out = []
    for s, k in ((a, kind), (b, "invalid")):
        if s is not None:
            s.heap[p.lid] = ObjCell(Text, {"$rest": S(TStr, after)})
            out.append((s, JSTokenType[k]))
    return out


class IsHexEscape(LexContract):
    fn = T + ":_is_hex_escape_sequence"

    def setup(self, E, st):
        self.s = TStr.const("three")
        st.assume(ln(self.s) <= 3)
        return [S(TStr, self.s)], {}

    def post(self, E, pre, st, res):
        if self.no_raise(E, st, res):
            E.oblige(st, "exactly-the-escapes-of-the-language", B(E.truth(st, res)) == hex_esc(self.s))
            for k, f in enumerate(hex_lemmas(hex_esc, z3.String("remaining"))):
                E.oblige(State(), f"lemma-{k}", f)

    def apply(self, E, st, args, kwargs):
        a = E.embed(st, args[0], TStr)
        E.oblige(st, "called-with-at-most-three-characters", ln(a) <= 3)
        return [(st, S(TBool, HEXP(a)))]


class StringLiteral(LexContract):
    fn = T + ":_consume_string_literal"
    modular = (IsEscape, ConsumeEscape, IsHexEscape, IsNewline)
    models = IsEscape.models
    int_lengths = (2,)
    exclusive = (SVAL, SREM, SOK)

    def setup(self, E, st):
        p = self.text(E, st)
        self.q = first(self.Z)
        st.assume(z3.Or(self.q == sv("'"), self.q == sv('"')))
        return [p], {}

    def steps(self, R):
        return str_steps(self.q, R)

    def candidates(self, E, lc):
        out = super().candidates(E, lc)
        R, R0 = self.rest(lc.st), self.rest(lc.entry)
        q = self.q
        out.append(("ended-same", SOK(q, R) == SOK(q, R0)))
        out.append(("rest-same", SREM(q, R) == SREM(q, R0)))
        for nm, e, e0 in lc.typed(TStr):
            if e0 is not None and z3.eq(z3.simplify(e0), EMP):
                out.append((f"{nm}-value", z3.Implies(SOK(q, R0), z3.Concat(e0, SVAL(q, R0)) == z3.Concat(e, SVAL(q, R)))))
                out.append((f"{nm}-is-quote", e == q))
        return out

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        t = self.tok(E, st, res)
        E.oblige(st, "gives-a-token", B(t is not None))
        if t is None:
            return
        Z1, R1 = rest(self.Z), self.rest(st)
        ok = SOK(self.q, Z1)
        val = E.embed(st, t[1], TStr)
        E.oblige(st, "ended-is-a-string", self.typ(E, st, t[0], "string_literal") == ok)
        E.oblige(st, "not-ended-is-invalid", self.typ(E, st, t[0], "invalid") == z3.Not(ok))
        E.oblige(st, "reads-exactly-it", R1 == SREM(self.q, Z1))
        E.oblige(st, "value-is-what-it-stands-for", z3.Implies(ok, val == SVAL(self.q, Z1)))
        E.oblige(st, "not-ended-is-kept-as-written", z3.Implies(z3.Not(ok), z3.Concat(val, R1) == self.Z))

    def apply(self, E, st, args, kwargs):
        p = args[0]
        Z = st.heap[p.lid].fields["$rest"].e
        q, Z1 = first(Z), rest(Z)
        E.oblige(st, "called-at-a-quote", z3.Or(q == sv("'"), q == sv('"')))
        val = TStr.fresh("string")
        st.assume(z3.If(SOK(q, Z1), val == SVAL(q, Z1), z3.Concat(val, SREM(q, Z1)) == Z))
        return [(s, s.alloc(DictCell(items={"type": C(k), "value": S(TStr, val)}))) for s, k in lexed(E, st, p, SOK(q, Z1), "string_literal", SREM(q, Z1))]


# ---- regular expressions
RX, RXC = z3.Function("regex_rest", Str, Str), z3.Function("regex_class_rest", Str, Str)
RXOK, RXCOK = z3.Function("regex_ended", Str, z3.BoolSort()), z3.Function("regex_class_ended", Str, z3.BoolSort())
FLV, FLR, fl_steps = munch("regex_flags", lambda R: oneof(first(R), "igmsuyd"))


def rx_steps(R):
    c, r = first(R), rest(R)
    dead = z3.Or(R == EMP, oneof(c, NLS))
    out = []
    for fn, ok, cls in ((RX, RXOK, False), (RXC, RXCOK, True)):
        def go(cond, f, k, after):
            return z3.Implies(cond, z3.And(fn(R) == f(after), ok(R) == k(after)))
        out.append(z3.Implies(dead, z3.And(fn(R) == R, z3.Not(ok(R)))))
        live = z3.Not(dead)
        c2, r2 = first(r), rest(r)
        pair = z3.And(live, c == sv("\\"), r != EMP, z3.Not(oneof(c2, NLS)))
        out.append(go(pair, fn, ok, r2))
        live = z3.And(live, z3.Not(pair))
        if not cls:
            out.append(z3.Implies(z3.And(live, c == sv("/")), z3.And(fn(R) == R, ok(R))))
            live = z3.And(live, c != sv("/"))
        out.append(go(z3.And(live, c == sv("[")), RXC, RXCOK, r))
        out.append(go(z3.And(live, c == sv("]")), RX, RXOK, r))
        out.append(go(z3.And(live, c != sv("["), c != sv("]")), fn, ok, r))
    return out + fl_steps(R)


class Regex(LexContract):
    """RX gives the text that starts with the closing slash."""

    fn = T + ":_consume_regex"
    modular = (IsNewline,)

    def setup(self, E, st):
        p = self.text(E, st)
        st.assume(first(self.Z) == sv("/"))
        return [p], {}

    def steps(self, R):
        return rx_steps(R)

    def funs(self):
        return ((FLV, FLR, None),)

    def candidates(self, E, lc):
        out = super().candidates(E, lc)
        R, Z1 = self.rest(lc.st), rest(self.Z)
        for t in (TInt, TBool):
            for nm, e, e0 in lc.typed(t):
                cls = e != 0 if t == TInt else e
                out.append((f"{nm}-in-class", z3.And(z3.If(cls, RXC(R), RX(R)) == RX(Z1), z3.If(cls, RXCOK(R), RXOK(R)) == RXOK(Z1))))
        for nm, e, e0 in lc.typed(TStr):
            out.append((f"{nm}-body", z3.Concat(sv("/"), e, R) == self.Z))
            out.append((f"{nm}-with-slash", z3.Concat(e, R) == self.Z))
        return out

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        t = self.tok(E, st, res)
        E.oblige(st, "gives-a-token", B(t is not None))
        if t is None:
            return
        Z1, R1 = rest(self.Z), self.rest(st)
        ok, val = RXOK(Z1), E.embed(st, t[1], TStr)
        E.oblige(st, "ended-is-a-regex", self.typ(E, st, t[0], "regex") == ok)
        E.oblige(st, "not-ended-is-invalid", self.typ(E, st, t[0], "invalid") == z3.Not(ok))
        A = rest(RX(Z1))
        for f in fl_steps(A):
            st.assume(f)
        if t[2] is not None:
            E.oblige(st, "flags-are-those-written", z3.Implies(ok, E.embed(st, t[2], TStr) == FLV(A)))
        else:
            E.oblige(st, "flags-are-those-written", z3.Not(ok))
        E.oblige(st, "ends-at-its-slash", z3.Implies(ok, R1 == FLR(A)))
        E.oblige(st, "body-is-kept-as-written", z3.Implies(ok, z3.Concat(sv("/"), val, RX(Z1)) == self.Z))
        E.oblige(st, "not-ended-is-kept-as-written", z3.Implies(z3.Not(ok), z3.And(z3.Concat(val, R1) == self.Z, R1 == RX(Z1))))

    def apply(self, E, st, args, kwargs):
        p = args[0]
        Z = st.heap[p.lid].fields["$rest"].e
        E.oblige(st, "called-at-a-slash", first(Z) == sv("/"))
        Z1 = rest(Z)
        A = rest(RX(Z1))
        val = TStr.fresh("body")
        st.assume(z3.If(RXOK(Z1), z3.Concat(sv("/"), val, RX(Z1)) == Z, z3.Concat(val, RX(Z1)) == Z))
        out = []
        for s, k in lexed(E, st, p, RXOK(Z1), "regex", z3.If(RXOK(Z1), FLR(A), RX(Z1))):
            d = {"type": C(k), "value": S(TStr, val)}
            if k.name == "regex":
                d["extra"] = S(TStr, FLV(A))
            out.append((s, s.alloc(DictCell(items=d))))
        return out


# ---- template literals
TR = z3.Function("template_rest", Str, Str)
TOK = z3.Function("template_ended", Str, z3.BoolSort())
TSUB = z3.Function("template_ends_with_substitution", Str, z3.BoolSort())


def tr_steps(R):
    c, r = first(R), rest(R)
    two = z3.And(R != EMP, z3.Or(c == sv("\\"), first(R, 2) == sv("${")))
    end = first(R, 2) == sv("${")
    return [
        z3.And(TR(EMP) == EMP, z3.Not(TOK(EMP))),
        z3.Implies(end, TSUB(R)),
        z3.Implies(c == sv("`"), z3.Not(TSUB(R))),
        z3.Implies(c == sv("\\"), TSUB(R) == TSUB(rest(R, 2))),
        z3.Implies(z3.And(R != EMP, z3.Not(two), c != sv("`")), TSUB(R) == TSUB(r)),
        z3.Implies(end, z3.And(TR(R) == rest(R, 2), TOK(R))),
        z3.Implies(c == sv("`"), z3.And(TR(R) == r, TOK(R))),
        z3.Implies(z3.And(c == sv("\\"), r == EMP), z3.And(TR(R) == EMP, z3.Not(TOK(R)))),
        z3.Implies(z3.And(c == sv("\\"), r != EMP), z3.And(TR(R) == TR(rest(R, 2)), TOK(R) == TOK(rest(R, 2)))),
        z3.Implies(z3.And(R != EMP, z3.Not(two), c != sv("`")), z3.And(TR(R) == TR(r), TOK(R) == TOK(r))),
    ]


class Template(LexContract):
    fn = T + ":_consume_template"

    def setup(self, E, st):
        p = self.text(E, st)
        st.assume(z3.Or(first(self.Z) == sv("`"), first(self.Z) == sv("}")))
        return [p], {}

    def steps(self, R):
        return tr_steps(R)

    def candidates(self, E, lc):
        out = super().candidates(E, lc)
        R, Z1 = self.rest(lc.st), rest(self.Z)
        out.append(("template-same", z3.And(TR(R) == TR(Z1), TOK(R) == TOK(Z1), TSUB(R) == TSUB(Z1))))
        for nm, e, e0 in lc.typed(TStr):
            out.append((f"{nm}-prefix", z3.Concat(e, R) == self.Z))
        return out

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        t = self.tok(E, st, res)
        E.oblige(st, "gives-a-token", B(t is not None))
        if t is None:
            return
        Z1, R1 = rest(self.Z), self.rest(st)
        val = E.embed(st, t[1], TStr)
        for f in tr_steps(R1):
            st.assume(f)
        E.oblige(st, "ended-is-a-template", self.typ(E, st, t[0], "template") == TOK(Z1))
        E.oblige(st, "not-ended-is-invalid", self.typ(E, st, t[0], "invalid") == z3.Not(TOK(Z1)))
        E.oblige(st, "reads-exactly-it", R1 == TR(Z1))
        E.oblige(st, "not-ended-reads-all", z3.Implies(z3.Not(TOK(Z1)), TR(Z1) == EMP))
        E.oblige(st, "kept-as-written", z3.Concat(val, R1) == self.Z)
        E.oblige(st, "shows-how-it-ended", z3.Implies(TOK(Z1), z3.SuffixOf(sv("${"), val) == TSUB(Z1)))

    def apply(self, E, st, args, kwargs):
        p = args[0]
        Z = st.heap[p.lid].fields["$rest"].e
        E.oblige(st, "called-at-a-template", z3.Or(first(Z) == sv("`"), first(Z) == sv("}")))
        Z1 = rest(Z)
        val = TStr.fresh("source")
        st.assume(z3.Concat(val, TR(Z1)) == Z, z3.Implies(TOK(Z1), z3.SuffixOf(sv("${"), val) == TSUB(Z1)), z3.Implies(z3.Not(TOK(Z1)), TR(Z1) == EMP))
        return [(s, s.alloc(DictCell(items={"type": C(k), "value": S(TStr, val)}))) for s, k in lexed(E, st, p, TOK(Z1), "template", TR(Z1))]



# ---- writing strings
Z = "vanillaplusjs.build.js.serializer"
GOOD = z3.Function("complete_units_for", Str, Str, Str, z3.BoolSort())  # quote, source text, value


def esc_defs(r):
    """the definitions of the opaque escape functions at r"""
    v, n = esc_parts(r)
    return [ESCP(r) == esc(r), z3.Implies(esc(r), z3.And(ESCV(r) == v, ESCN(r) == n)), HEXP(r) == hex_esc(r)]


def written_escapes(P, V, N, H, h, W):
    """what is read where an escape of hex digits h is followed by W"""
    out = []
    for k in (2, 4, 5, 6):
        hyp = z3.And(ln(h) == k, hexrun(h, 0, k), VAL16(h) <= 0x10FFFF)
        r = z3.Concat(sv("x"), h, W) if k == 2 else z3.Concat(sv("u"), h, W) if k == 4 else z3.Concat(sv("u{"), h, sv("}"), W)
        n = {2: 3, 4: 5}.get(k, k + 3)
        gone = z3.SubString(r, n, ln(r) - n) == W
        if k == 2:
            out.append(z3.Implies(hyp, z3.And(H(r), z3.SubString(r, 1, 2) == h, gone)))
        else:
            out.append(z3.Implies(hyp, z3.And(P(r), V(r) == CHR(VAL16(h)), N(r) == n, gone)))
    return out


class SerializeString(LexContract):
    """The literal written, followed by any text, is read back as the string.

    GOOD(q, x, v): source text x is a sequence of complete units that stand
    for v, i.e. reading x followed by any text W gives v and then what W
    gives.  It is closed under appending one unit u for a character c where
    u + W is read as c and then W, for every W (W below is an arbitrary
    constant that occurs nowhere else).
    """

    fn = Z + ":serialize_string"
    exclusive = ()

    def setup(self, E, st):
        self.s = TStr.const("string")
        self.W = z3.String("following")
        self.digits, self.proved = [], []
        for q in "\"'":
            st.assume(GOOD(sv(q), EMP, EMP))
        return [S(TStr, self.s)], {}

    def format_hook(self, E, st, v, spec):
        import re
        m = re.fullmatch(r"(?:0(\d))?([xX])", spec)
        if not m or not (isinstance(v, S) and v.t == TInt):
            return None
        w = int(m.group(1) or 0)
        f = z3.Function(f"format_{spec}", z3.IntSort(), Str)
        t = f(v.e)
        self.digits.append(t)
        for n in range(1, 7):
            lo = 0 if n <= max(w, 1) else 16 ** (n - 1)
            if n >= max(w, 1):
                st.assume(z3.Implies(z3.And(v.e >= lo, v.e < 16 ** n), z3.And(ln(t) == n, hexrun(t, 0, n), VAL16(t) == v.e)))
        return S(TStr, t)

    def models(self):
        def m_ord(E, st, args, kw):
            v = args[0]
            if isinstance(v, C):
                return [(st, C(ord(v.v)))]
            E.oblige(st, "one-character", ln(v.e) == 1)
            k = z3.StrToCode(v.e)
            st.assume(CHR(k) == v.e, k >= 0, k <= 0x10FFFF)
            return [(st, S(TInt, k))]
        return {ord: m_ord}

    def quotes(self, lc):
        """the quotes in use: constants of this path"""
        return [c for c in (sv('"'), sv("'")) if any(isinstance(v, C) and lift(v.v, TStr).eq(c) for v in lc.locals().values() if isinstance(getattr(v, "v", None), str))] or [sv('"'), sv("'")]

    def unit(self, E, st, q, x, u, v, c):
        """instance of the closure of GOOD"""
        W = self.W
        R = z3.Concat(u, W)
        st.assume(*str_steps(q, R))
        for h in self.digits:
            if "format" not in u.sexpr() or h.sexpr() not in u.sexpr():
                continue
            st.assume(*written_escapes(ESCP, ESCV, ESCN, HEXP, h, W))
        from vc import solver
        old, solver.EXCLUSIVE = solver.EXCLUSIVE, frozenset(f.name() for f in (SVAL, SREM, SOK, GOOD))
        try:
            for f in (SVAL, SREM, SOK):
                g = f(q, R) == (z3.Concat(c, f(q, W)) if f is SVAL else f(q, W))
                if solver.prove(E.axioms, st.pc, g, timeout_s=4, use_cvc5=False, quick=True).status == "proved":
                    self.proved.append((list(st.pc), g))
                    st.assume(g)
        finally:
            solver.EXCLUSIVE = old
        same = z3.And(SVAL(q, R) == z3.Concat(c, SVAL(q, W)), SREM(q, R) == SREM(q, W), SOK(q, R) == SOK(q, W))
        st.assume(z3.Implies(z3.And(GOOD(q, x, v), same), GOOD(q, z3.Concat(x, u), z3.Concat(v, c))))

    def candidates(self, E, lc):
        out = []
        if lc.idx is None:
            return out
        v = z3.SubString(self.s, 0, lc.idx)
        for nm, e, e0 in lc.typed(TStr):
            if e0 is None:
                continue
            kids = e.children() if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT else []
            if len(kids) > 1 and not getattr(self, "seen", {}).get((e.get_id(), id(lc.st))):
                x, u = kids[0], z3.Concat(*kids[1:]) if len(kids) > 2 else kids[1]
                k = z3.simplify(lc.idx - 1)
                v0, c, x1 = z3.SubString(self.s, 0, k), z3.SubString(self.s, k, 1), z3.SubString(x, 1, ln(x) - 1)
                lc.st.assume(z3.Implies(ln(x) >= 1, z3.And(z3.SubString(e, 1, ln(e) - 1) == z3.Concat(x1, u), first(e) == first(x))))
                lc.st.assume(z3.Implies(z3.And(0 <= k, k < ln(self.s)), v == z3.Concat(v0, c)))
                for q in self.quotes(lc):
                    self.unit(E, lc.st, q, x1, u, v0, c)
            for q in self.quotes(lc):
                out.append((f"{nm}-units-{q}", z3.And(first(e) == q, GOOD(q, z3.SubString(e, 1, ln(e) - 1), v))))
        return out

    def post(self, E, pre, st, res):
        if not getattr(self, "lemmas_done", False):
            self.lemmas_done = True
            h, W = z3.Strings("digits following")
            for k, f in enumerate(written_escapes(esc, lambda s: esc_parts(s)[0], lambda s: esc_parts(s)[1], hex_esc, h, W)):
                E.oblige(State(), f"lemma-written-{k}", f)
        if not self.no_raise(E, st, res):
            return
        r = E.embed(st, res, TStr)
        q = first(r)
        E.oblige(st, "starts-with-a-quote", z3.Or(q == sv("'"), q == sv('"')))
        E.oblige(st, "ends-with-that-quote", z3.And(ln(r) >= 2, at(r, ln(r) - 1) == q))
        E.oblige(st, "stands-for-the-string", GOOD(q, z3.SubString(r, 1, ln(r) - 2), self.s))



# ---- the token stream
BEFORE_EXPRESSION = ("case", "delete", "do", "else", "in", "instanceof", "new", "return", "throw", "typeof", "void")
CONTEXTUAL = ("await", "of", "yield", "as", "from", "import")
PUNCT = {"{": "open_curly_bracket", "}": "close_curly_bracket", "*": "asterisk", ",": "comma", ";": "semicolon"}
Stk = TSeq(TBool)


class Tokenize(LexContract):
    """Each token yielded is the token the language has at the mark (the text
    not yet accounted for), and the mark moves to what has not been read.

    Ghost state: $mark; $stack, for each open bracket whether it is a
    substitution of a template; $divides / $regex, whether the last token
    requires a following slash to be a division / to start a regex (neither
    after a closing parenthesis or bracket of a block, where it depends).
    """

    fn = T + ":tokenize"
    modular = (Whitespace, Comment, Identifier, IsNewline, StringLiteral, Regex, Template)

    def setup(self, E, st):
        p = self.text(E, st)
        st.ghost["$mark"] = S(TStr, self.Z)
        st.ghost["$stack"] = S(Stk, z3.Empty(Stk.sort()))
        for k in ("$divides", "$regex", "$eof"):
            st.ghost[k] = S(TBool, z3.BoolVal(False))
        return [S(TU("file"), TU("file").fresh("fp"))], {}

    def models(self):
        from vanillaplusjs.build.ioutil import PeekableTextIO, PreprocessedTextIO
        reader = lambda E, st, args, kw: [(st, self.p)]  # proved for C07
        return {PeekableTextIO: reader, PreprocessedTextIO: reader}

    def steps(self, R):
        return ws_steps(R)

    def candidates(self, E, lc):
        out = super().candidates(E, lc)
        R, g = self.rest(lc.st), lc.st.ghost
        out.append(("all-accounted-for", g["$mark"].e == R))
        out.append(("no-end-yet", z3.Not(g["$eof"].e)))
        for nm, e, e0 in lc.typed(Stk):
            out.append((f"{nm}-is-the-stack", z3.Implies(R != EMP, e == g["$stack"].e)))
        for nm, e, e0 in lc.typed(TBool):
            out.append((f"{nm}-divides", z3.And(z3.Implies(g["$divides"].e, e), z3.Implies(g["$regex"].e, z3.Not(e)))))
        return out

    def on_yield(self, E, st, v):
        from vanillaplusjs.build.js.token import JSTokenType
        M, R = st.ghost["$mark"].e, self.rest(st)
        G, D, X = (st.ghost[k].e for k in ("$stack", "$divides", "$regex"))
        t = self.tok(E, st, v)
        c, M1 = first(M), rest(M)
        kind = t[0].v if isinstance(t[0], C) else None
        if kind is None:
            raise Unsupported("token of unknown type")
        val = None if isinstance(t[1], C) and t[1].v is None else E.embed(st, t[1], TStr)
        for f in ws_steps(M) + id_steps(M) + tr_steps(M1) + rx_steps(M1):
            st.assume(f)
        line, block, cval, crem = Comment.spec(M)
        top = z3.And(ln(G) > 0, G[ln(G) - 1])
        conds = [  # in order of precedence: (what, holds, kinds, value, remaining)
            ("end", M == EMP, {"eof"}, None, M),
            ("whitespace", WSV(M) != EMP, {"whitespace"}, WSV(M), WSR(M)),
            ("comment", z3.Or(line, block), {"comment"}, cval, crem),
            ("name", IV0(M) != EMP, {"identifier", "keyword_as", "keyword_from", "keyword_import"}, "name", IR0(M)),
            ("newline", oneof(c, NLS), {"line_terminator"}, None, M1),
            ("template", z3.Or(c == sv("`"), z3.And(c == sv("}"), top)), {"template", "invalid"}, "template", TR(M1)),
            *[(f"'{x}'", c == sv(x), {k}, None, M1) for x, k in PUNCT.items()],
            ("string", oneof(c, "'\""), {"string_literal", "invalid"}, "string", SREM(c, M1)),
            ("slash", c == sv("/"), {"regex", "invalid"}, "slash", None),
            ("other", z3.BoolVal(True), {"invalid"}, c, M1),
        ]
        word = z3.Or(*[IV0(M) == sv(w) for w in RESERVED])
        A = rest(RX(M1))
        regex = z3.And(RXOK(M1), B(kind == JSTokenType.regex), R == FLR(A))
        if val is not None and kind == JSTokenType.regex:
            regex = z3.And(regex, z3.Concat(sv("/"), val, RX(M1)) == M, E.embed(st, t[2], TStr) == FLV(A))
        badrx = z3.And(z3.Not(RXOK(M1)), B(kind == JSTokenType.invalid), R == RX(M1), z3.Concat(val, R) == M if val is not None else z3.BoolVal(False))
        divide = z3.And(B(kind == JSTokenType.invalid), R == M1, val == sv("/") if val is not None else z3.BoolVal(False))
        isval = lambda x: val == x if val is not None else z3.BoolVal(False)
        before = []
        for what, holds, kinds, value, rem in conds:
            here = z3.And(holds, *[z3.Not(b) for b in before])
            before.append(holds)
            if not E.feasible(st.copy().assume(here)):
                continue
            K = lambda n: B(kind == JSTokenType[n])
            E.oblige(st, f"{what}-token-kind", z3.Implies(here, B(kind.name in kinds)))
            if what == "slash":
                E.oblige(st, "slash-is-a-regex-or-a-division", z3.Implies(here, z3.Or(regex, badrx, divide)))
                E.oblige(st, "division-after-a-value", z3.Implies(z3.And(here, D), divide))
                E.oblige(st, "regex-after-an-operator", z3.Implies(z3.And(here, X), z3.Or(regex, badrx)))
                continue
            E.oblige(st, f"{what}-token-reads-exactly-it", z3.Implies(here, R == rem))
            if value is None:
                E.oblige(st, f"{what}-token-has-no-value", z3.Implies(here, B(val is None)))
            elif value == "name":
                E.oblige(st, "name-is-kept", z3.Implies(here, z3.And(*[K(k) == (IV0(M) == sv(w)) for w, k in RESERVED.items()], z3.Or(word, isval(IV0(M))))))
            elif value == "template":
                E.oblige(st, "template-is-kept", z3.Implies(here, z3.And(K("template") == TOK(M1), z3.Concat(val, R) == M if val is not None else z3.BoolVal(False))))
            elif value == "string":
                E.oblige(st, "string-stands-for-its-value", z3.Implies(here, z3.And(K("string_literal") == SOK(c, M1), z3.If(SOK(c, M1), isval(SVAL(c, M1)), z3.Concat(val, R) == M if val is not None else z3.BoolVal(False)))))
            else:
                E.oblige(st, f"{what}-token-value", z3.Implies(here, isval(value)))
        name, skip = IV0(M) != EMP, z3.Or(WSV(M) != EMP, line, block, oneof(c, NLS))
        kw = z3.Or(*[IV0(M) == sv(w) for w in BEFORE_EXPRESSION])
        ctx = z3.Or(*[IV0(M) == sv(w) for w in CONTEXTUAL])
        tm = z3.And(z3.Not(skip), z3.Not(name), conds[5][1])
        isrx = B(kind == JSTokenType.regex)
        lit = z3.Or(isrx, B(kind == JSTokenType.string_literal), oneof(c, "]0123456789"))
        op = z3.And(z3.Or(oneof(c, "(,=:[!&|?{;*%^~<>"), z3.And(c == sv("/"), divide, z3.Not(badrx))))
        st.ghost["$divides"] = S(TBool, z3.If(skip, D, z3.If(name, z3.Not(z3.Or(kw, ctx)), z3.If(tm, z3.And(TOK(M1), z3.Not(TSUB(M1))), lit))))
        st.ghost["$regex"] = S(TBool, z3.If(skip, X, z3.If(name, kw, z3.If(tm, z3.And(TOK(M1), TSUB(M1)), op))))
        n = ln(G)
        popped = z3.If(n > 0, z3.SubSeq(G, 0, n - 1), G)
        plainc = z3.And(z3.Not(skip), z3.Not(name))
        G1 = z3.If(z3.And(plainc, c == sv("}")), popped, G)
        G2 = z3.If(z3.And(plainc, c == sv("{")), z3.Concat(G1, z3.Unit(z3.BoolVal(False))), z3.If(z3.And(tm, TSUB(M1)), z3.Concat(G1, z3.Unit(z3.BoolVal(True))), G1))
        st.ghost["$stack"] = S(Stk, z3.If(M == EMP, G, G2))
        E.oblige(st, "nothing-after-the-end", z3.Not(st.ghost["$eof"].e))
        st.ghost["$eof"] = S(TBool, z3.Or(st.ghost["$eof"].e, B(kind == JSTokenType.eof)))
        st.ghost["$mark"] = S(TStr, R)
        return [(st, NONE)]

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        E.oblige(st, "ends-with-the-end-token", st.ghost["$eof"].e)
        E.oblige(st, "all-text-accounted-for", z3.And(st.ghost["$mark"].e == EMP, self.rest(st) == EMP))



SER = z3.Function("string_source", Str, Str)


class SerializeStringUse(SerializeString):
    def apply(self, E, st, args, kwargs):
        return [(st, S(TStr, SER(E.embed(st, args[0], TStr))))]


class Serialize(LexContract):
    """Every token is written as the source text it stands for."""

    fn = Z + ":serialize"
    modular = (SerializeStringUse,)
    FIXED = {"line_terminator": "\n", "open_curly_bracket": "{", "close_curly_bracket": "}", "asterisk": "*", "keyword_as": "as", "keyword_import": "import", "keyword_from": "from", "comma": ",", "semicolon": ";", "eof": ""}
    SAME = ("whitespace", "identifier", "template", "invalid")

    def setup(self, E, st):
        from vanillaplusjs.build.js.token import JSTokenType
        self.t = TEnum(JSTokenType)
        self.k, self.v, self.x = self.t.const("type"), TStr.const("value"), TStr.const("extra")
        d = st.alloc(DictCell(items={"type": S(self.t, self.k), "value": S(TStr, self.v), "extra": S(TStr, self.x)}))
        return [d], {}

    def post(self, E, pre, st, res):
        from vanillaplusjs.build.js.token import JSTokenType
        if not self.no_raise(E, st, res):
            return
        r = E.embed(st, res, TStr)
        clean = z3.Function("str_replace_all", *[Str] * 4)(self.v, sv("*/"), sv("*\\/"))
        want = {k: sv(x) for k, x in self.FIXED.items()} | {k: self.v for k in self.SAME}
        want["string_literal"] = SER(self.v)
        want["regex"] = z3.Concat(sv("/"), self.v, sv("/"), self.x)
        want["comment"] = z3.Concat(sv("/*"), clean, sv("*/"))
        E.oblige(st, "every-kind-is-covered", B({k.name for k in JSTokenType} == set(want)))
        for k, w in want.items():
            is_k = self.k == self.t.member(JSTokenType[k])
            if E.feasible(st.copy().assume(is_k)):
                E.oblige(st, f"{k}-is-written-as-read", z3.Implies(is_k, r == w))


trusted.ASSUME["C05"] = {
    "trusted": ["str.replace: replacing */ by *\\/ leaves no */ (shown for texts up to length 7 by the run-time contract's generator)", "chr, ord, int(_, 16) and the formats x, 02x, 04x: mutually inverse on hexadecimal digits", "is_id_start, is_id_continue: proved for C19", "PreprocessedTextIO: proved for C07"],
    "assumptions": ["what a name, literal or comment stands for is given by recursive definitions over the text, whose step equations are used where the code looks", "the reader behaves per its contract (C07)", "termination of the reading loops is left to the reader (each iteration reads)", "induction over the units of a written string is by the closure rule stated in SerializeString"],
}
CONTRACTS = {"C05": [IsNewline, IsWhitespace, Whitespace, LineComment, BlockComment, Comment, IsEscape, ConsumeEscape, Identifier, IsHexEscape, StringLiteral, Regex, Template, Tokenize, SerializeString, Serialize]}
