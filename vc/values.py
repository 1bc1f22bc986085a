"""Types, values, heap cells and states of the symbolic evaluator.

A *type* (Ty) says how a Python value is represented as a z3 term.  A *value*
is either concrete (C), a typed z3 term (S), a tuple (Tup), a reference to a
heap cell (L), a list stored in a field of a symbolic object reference (FL), or
a callable (Fn / BM).
"""
import itertools
import z3

_ids = itertools.count()


def fresh_name(base):
    if not base[:1].isalpha():
        base = "v" + base  # a plain symbol in SMT-LIB
    return f"{base}!{next(_ids)}"


class Unsupported(Exception):
    """The source uses a construct outside the verifier's subset."""


# ---------------------------------------------------------------- types
class Ty:
    _cache = {}

    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __hash__(self):
        return hash((type(self).__name__, self.key()))

    def key(self):
        return ()

    def __repr__(self):
        return self.nm()

    def nm(self):
        return type(self).__name__[1:]

    def fresh(self, base):
        return z3.Const(fresh_name(base), self.sort())

    def const(self, name):
        return z3.Const(name, self.sort())


class _Simple(Ty):
    _sort = None

    def sort(self):
        return type(self)._sort()


class TInt_(_Simple):
    _sort = staticmethod(z3.IntSort)


class TBool_(_Simple):
    _sort = staticmethod(z3.BoolSort)


class TReal_(_Simple):
    _sort = staticmethod(z3.RealSort)


class TStr_(_Simple):
    _sort = staticmethod(z3.StringSort)


TInt, TBool, TReal, TStr = TInt_(), TBool_(), TReal_(), TStr_()

_sorts = {}


class TU(Ty):
    """An opaque value (uninterpreted sort)."""

    def __init__(self, name):
        self.name = name

    def key(self):
        return self.name

    def nm(self):
        return self.name

    def sort(self):
        k = "U_" + self.name
        if k not in _sorts:
            _sorts[k] = z3.DeclareSort(k)
        return _sorts[k]


class TRef(Ty):
    """A reference to a heap object of a class whose fields are z3 arrays."""

    def __init__(self, cname):
        self.cname = cname

    def key(self):
        return self.cname

    def nm(self):
        return "Ref" + self.cname

    def sort(self):
        k = "Ref_" + self.cname
        if k not in _sorts:
            _sorts[k] = z3.DeclareSort(k)
        return _sorts[k]


class TOpt(Ty):
    def __init__(self, t):
        self.t = t

    def key(self):
        return self.t

    def nm(self):
        return "Opt" + self.t.nm()

    def sort(self):
        k = self.nm()
        if k not in _sorts:
            d = z3.Datatype(k)
            d.declare("none_" + k)
            d.declare("some_" + k, ("val_" + k, self.t.sort()))
            _sorts[k] = d.create()
        return _sorts[k]

    def none(self):
        return self.sort().constructor(0)()

    def some(self, e):
        return self.sort().constructor(1)(e)

    def is_none(self, e):
        return self.sort().recognizer(0)(e)

    def val(self, e):
        return self.sort().accessor(1, 0)(e)


class TSeq(Ty):
    """An immutable-by-value sequence in z3's native sequence theory."""

    def __init__(self, t):
        self.t = t

    def key(self):
        return self.t

    def nm(self):
        return "Seq" + self.t.nm()

    def sort(self):
        return z3.SeqSort(self.t.sort())


class TBag(Ty):
    """A list with an axiomatised view: length, element at i, multiplicities."""

    def __init__(self, t):
        self.t = t

    def key(self):
        return self.t

    def nm(self):
        return "List" + self.t.nm()

    def sort(self):
        k = "BL_" + self.t.nm()
        if k not in _sorts:
            _sorts[k] = z3.DeclareSort(k)
        return _sorts[k]

    def fns(self):
        k = "fns_" + self.nm()
        if k not in _sorts:
            n = self.nm()
            I, E, Lq = z3.IntSort(), self.t.sort(), self.sort()
            A = z3.ArraySort(E, I)
            ln = z3.Function("len_" + n, Lq, I)
            at = z3.Function("at_" + n, Lq, I, E)
            bag = z3.Function("bag_" + n, Lq, A)
            ix = z3.Function("ix_" + n, Lq, E, I)
            pb = z3.Function("pbag_" + n, Lq, I, A)
            jx = z3.Function("jx_" + n, Lq, I, E, I)
            empty = z3.Const("empty_" + n, Lq)
            _sorts[k] = (ln, at, bag, ix, pb, jx, empty)
        return _sorts[k]

    def axioms(self, prefix_index=False):
        ln, at, bag, ix, pb, jx, empty = self.fns()
        l = z3.Const("l", self.sort())
        i, j = z3.Ints("i j")
        e = z3.Const("e", self.t.sort())
        K0 = z3.K(self.t.sort(), z3.IntVal(0))
        F = z3.ForAll
        Sel = z3.Select
        base = [
            F([l], ln(l) >= 0, patterns=[ln(l)]),
            ln(empty) == 0,
            bag(empty) == K0,
            F([l, e], Sel(bag(l), e) >= 0, patterns=[Sel(bag(l), e)]),
            F([l, i], z3.Implies(z3.And(0 <= i, i < ln(l)), Sel(bag(l), at(l, i)) >= 1), patterns=[at(l, i)]),
            F([l, e], z3.Implies(Sel(bag(l), e) > 0, z3.And(0 <= ix(l, e), ix(l, e) < ln(l), at(l, ix(l, e)) == e)), patterns=[Sel(bag(l), e)]),
            F([l], pb(l, 0) == K0, patterns=[pb(l, 0)]),
            F([l], pb(l, ln(l)) == bag(l), patterns=[pb(l, ln(l))]),
            F([l, i], z3.Implies(z3.And(0 <= i, i < ln(l)), pb(l, i + 1) == z3.Store(pb(l, i), at(l, i), Sel(pb(l, i), at(l, i)) + 1)), patterns=[pb(l, i + 1)]),
            F([l, i, e], z3.Implies(z3.And(0 <= i, i <= ln(l)), z3.And(Sel(pb(l, i), e) >= 0, Sel(pb(l, i), e) <= Sel(bag(l), e))), patterns=[Sel(pb(l, i), e)]),
            F([l, i], z3.Implies(z3.And(0 <= i, i < ln(l)), Sel(pb(l, i), at(l, i)) < Sel(bag(l), at(l, i))), patterns=[z3.MultiPattern(pb(l, i), at(l, i))]),
        ]
        extra = [
            F([l, i, e], z3.Implies(z3.And(0 <= i, i <= ln(l), Sel(pb(l, i), e) > 0), z3.And(0 <= jx(l, i, e), jx(l, i, e) < i, at(l, jx(l, i, e)) == e)), patterns=[Sel(pb(l, i), e)]),
            F([l, i, j], z3.Implies(z3.And(0 <= j, j < i, i <= ln(l)), Sel(pb(l, i), at(l, j)) >= 1), patterns=[z3.MultiPattern(pb(l, i), at(l, j))]),
        ]
        return extra if prefix_index else base


class TEnum(Ty):
    def __init__(self, cls):
        self.cls = cls

    def key(self):
        return self.cls

    def nm(self):
        return "Enum" + self.cls.__name__

    def sort(self):
        k = self.nm()
        if k not in _sorts:
            members = list(self.cls)
            s, cs = z3.EnumSort(k, [f"{k}_{m.name}" for m in members])
            _sorts[k] = s
            _sorts[k + "#"] = dict(zip(members, cs))
        return _sorts[k]

    def member(self, m):
        self.sort()
        return _sorts[self.nm() + "#"][m]


class TRec(Ty):
    """An immutable record: kind 'dict' (constant string keys; an Opt field may
    be absent or None) or 'obj' (attributes of pycls)."""

    def __init__(self, name, fields, kind="dict", pycls=None, absent=()):
        self.name, self.fields, self.kind, self.pycls = name, dict(fields), kind, pycls
        self.absent = set(absent)  # fields for which None means "key may be missing"

    def key(self):
        return self.name

    def nm(self):
        return "Rec" + self.name

    def sort(self):
        k = self.nm()
        if k not in _sorts:
            d = z3.Datatype(k)
            d.declare("mk_" + k, *[(f"{k}_{f}", t.sort()) for f, t in self.fields.items()])
            _sorts[k] = d.create()
        return _sorts[k]

    def mk(self, *es):
        return self.sort().constructor(0)(*es)

    def get(self, e, f):
        return self.sort().accessor(0, list(self.fields).index(f))(e)


class TSet(Ty):
    def __init__(self, t):
        self.t = t

    def key(self):
        return self.t

    def nm(self):
        return "Set" + self.t.nm()

    def sort(self):
        return z3.ArraySort(self.t.sort(), z3.BoolSort())


class TMap(Ty):
    def __init__(self, k, v):
        self.k, self.v = k, v

    def key(self):
        return (self.k, self.v)

    def nm(self):
        return f"Map{self.k.nm()}{self.v.nm()}"

    def sort(self):
        k = self.nm()
        if k not in _sorts:
            d = z3.Datatype(k)
            d.declare("mk_" + k, ("has_" + k, z3.ArraySort(self.k.sort(), z3.BoolSort())), ("get_" + k, z3.ArraySort(self.k.sort(), self.v.sort())))
            _sorts[k] = d.create()
        return _sorts[k]

    def mk(self, has, get):
        return self.sort().constructor(0)(has, get)

    def has(self, e):
        return self.sort().accessor(0, 0)(e)

    def get(self, e):
        return self.sort().accessor(0, 1)(e)


class TTup(Ty):
    def __init__(self, *ts):
        self.ts = tuple(ts)

    def key(self):
        return self.ts

    def nm(self):
        return "Tup" + "".join(t.nm() for t in self.ts)

    def sort(self):
        k = self.nm()
        if k not in _sorts:
            d = z3.Datatype(k)
            d.declare("mk_" + k, *[(f"{k}_{i}", t.sort()) for i, t in enumerate(self.ts)])
            _sorts[k] = d.create()
        return _sorts[k]

    def mk(self, *es):
        return self.sort().constructor(0)(*es)

    def get(self, e, i):
        return self.sort().accessor(0, i)(e)


# ---------------------------------------------------------------- values
class V:
    pass


class C(V):
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"C({self.v!r})"


class S(V):
    def __init__(self, t, e):
        self.t, self.e = t, e

    def __repr__(self):
        return f"S({self.t},{self.e})"


class Tup(V):
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f"Tup({self.items})"


class L(V):
    def __init__(self, lid):
        self.lid = lid

    def __repr__(self):
        return f"L({self.lid})"


class FL(V):
    """The list held by field `field` of the symbolic object `ref` (TRef)."""

    def __init__(self, cname, field, ref):
        self.cname, self.field, self.ref = cname, field, ref

    def __repr__(self):
        return f"FL({self.cname}.{self.field} of {self.ref})"


class Fn(V):
    def __init__(self, node, env, qual, defaults=(), kwdefaults=None, cls=None):
        self.node, self.env, self.qual, self.defaults, self.kwdefaults, self.cls = node, env, qual, defaults, kwdefaults or {}, cls

    def __repr__(self):
        return f"Fn({self.qual})"


class BM(V):
    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __repr__(self):
        return f"BM({self.recv}.{self.name})"


class Lazy(V):
    """An unevaluated generator expression / dict view / enumerate / zip ..."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return f"Lazy({self.kind})"


class Undef(V):
    pass


UNDEF = Undef()
NONE = C(None)
TRUE = C(True)
FALSE = C(False)


class Raised:
    def __init__(self, cls, msg="", cond_note="", args=()):
        self.cls, self.msg, self.args = cls, msg, list(args)

    def __repr__(self):
        return f"Raised({getattr(self.cls, '__name__', self.cls)}: {self.msg})"


# ---------------------------------------------------------------- cells
class ListCell:
    def __init__(self, items=None, seq=None):
        self.items, self.seq = items, seq  # seq: S(TSeq|TBag)

    def __repr__(self):
        return f"List({self.items if self.items is not None else self.seq})"


class DictCell:
    def __init__(self, items=None, sym=None, order=None):
        self.items, self.sym, self.order = items, sym, order  # sym: S(TMap)

    def __repr__(self):
        return f"Dict({self.items if self.items is not None else self.sym})"


class SetCell:
    def __init__(self, items=None, sym=None):
        self.items, self.sym = items, sym  # sym: S(TSet)

    def __repr__(self):
        return f"Set({self.items if self.items is not None else self.sym})"


class ObjCell:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, dict(fields)

    def __repr__(self):
        return f"Obj({getattr(self.cls, '__name__', self.cls)}:{self.fields})"


class State:
    __slots__ = ("frames", "heap", "fields", "pc", "ghost", "nfr", "nloc", "log")

    def __init__(self):
        self.frames, self.heap, self.fields, self.pc, self.ghost = {}, {}, {}, [], {}
        self.nfr = 0
        self.nloc = 0
        self.log = []

    def copy(self):
        n = State()
        n.frames = {k: dict(v) for k, v in self.frames.items()}
        n.heap = dict(self.heap)
        n.fields = dict(self.fields)
        n.pc = list(self.pc)
        n.ghost = dict(self.ghost)
        n.nfr, n.nloc = self.nfr, self.nloc
        n.log = list(self.log)
        return n

    def assume(self, *es):
        for e in es:
            if isinstance(e, bool):
                e = z3.BoolVal(e)
            self.pc.append(e)
        return self

    def alloc(self, cell):
        self.nloc += 1
        lid = self.nloc
        self.heap[lid] = cell
        return L(lid)

    def new_frame(self, vars):
        self.nfr += 1
        self.frames[self.nfr] = dict(vars)
        return self.nfr


def lift(v, t):
    """z3 term of type t for concrete python v (no heap access)."""
    if isinstance(t, TOpt):
        return t.none() if v is None else t.some(lift(v, t.t))
    if t == TInt and isinstance(v, int):
        return z3.IntVal(int(v))
    if t == TBool and isinstance(v, bool):
        return z3.BoolVal(v)
    if t == TReal and isinstance(v, (int, float)) and not isinstance(v, bool):
        from fractions import Fraction
        return z3.RealVal(str(Fraction(v)))
    if t == TStr and isinstance(v, str):
        return strval(str.__str__(v) if type(v) is str else v.value if hasattr(v, "value") else str(v))
    if isinstance(t, TEnum) and isinstance(v, t.cls):
        return t.member(v)
    if isinstance(t, TEnum) and isinstance(v, str):
        for m in t.cls:
            if m.value == v:
                return t.member(m)
    if isinstance(t, TSeq) and isinstance(v, (list, tuple)):
        if not v:
            return z3.Empty(t.sort())
        us = [z3.Unit(lift(x, t.t)) for x in v]
        return us[0] if len(us) == 1 else z3.Concat(*us)
    if isinstance(t, TTup) and isinstance(v, tuple):
        return t.mk(*[lift(x, tt) for x, tt in zip(v, t.ts)])
    raise Unsupported(f"cannot represent {v!r} as {t}")


def strval(s):
    """z3 string literal for any Python str (escapes non-printable / '\\')."""
    out = []
    for ch in s:
        o = ord(ch)
        if 32 <= o < 127 and ch != "\\":
            out.append(ch)
        else:
            out.append("\\u{%x}" % o)
    return z3.StringVal("".join(out))


def py_str(e):
    """Python str of a z3 string literal."""
    s = e.as_string()
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
