"""C19: identifier characters."""
import z3

from vc.contracts import Contract
from vc.engine import B, _and, _or
from vc.values import *
from vc import trusted

U = "vanillaplusjs.build.js.unicode_derived"
Rng = TTup(TInt, TInt)
trusted.ASSUME["C19"] = {
    "trusted": ["the Unicode character database of the interpreter (unicodedata), used as the reference for ID_Start and ID_Continue"],
    "assumptions": ["characters first assigned after Unicode 14 may or may not count"],
}
i_ = z3.Int("i")


class IsMatch(Contract):
    """is_match over any sorted table of disjoint ranges: exact membership."""

    fn = U + ":is_match"
    timeout = 12.0
    expect_paths = 2

    def setup(self, E, st):
        self.c = TStr.const("char")
        st.assume(z3.Length(self.c) == 1)
        self.exact = TSet(TStr).const("exact")
        t = TSeq(Rng)
        self.seq = t.const("ranges")
        at = lambda i: self.seq[i]
        self.n = z3.Length(self.seq)
        self.lo = lambda i: Rng.get(at(i), 0)
        self.hi = lambda i: Rng.get(at(i), 1)
        a, b = z3.Ints("a b")
        st.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < self.n), self.lo(a) <= self.hi(a))))
        st.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < self.n), self.hi(a) < self.lo(b))))
        self.code = z3.StrToCode(self.c)
        exact = st.alloc(SetCell(sym=S(TSet(TStr), self.exact)))
        ranges = st.alloc(ListCell(seq=S(t, self.seq)))
        return [S(TStr, self.c), exact, ranges], {}

    def candidates(self, E, lc):
        out = []
        for nm, e, e0 in lc.typed(TInt):
            out.append((f"below-{nm}", z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < e, i_ < self.n), self.hi(i_) < self.code))))
            out.append((f"above-{nm}", z3.ForAll([i_], z3.Implies(z3.And(i_ > e, 0 <= i_, i_ < self.n), self.lo(i_) > self.code))))
            out.append((f"from-{nm}", z3.ForAll([i_], z3.Implies(z3.And(i_ >= e, 0 <= i_, i_ < self.n), self.lo(i_) > self.code))))
            out.append((f"{nm}>=0", e >= 0))
            out.append((f"{nm}>=-1", e >= -1))
            out.append((f"{nm}<n", e < self.n))
            out.append((f"{nm}<=n", e <= self.n))
        return out

    def measures(self, E, lc):
        es = [(nm, e) for nm, e, e0 in lc.typed(TInt)]
        for n, a in es:
            for k, b in es:
                if n != k:
                    yield f"{n}-{k}+1", a - b + 1

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        r = B(E.truth(st, res))
        inside = z3.Exists([i_], z3.And(0 <= i_, i_ < self.n, self.lo(i_) <= self.code, self.code <= self.hi(i_)))
        E.oblige(st, "accepted-only-if-listed", z3.Implies(r, z3.Or(z3.Select(self.exact, self.c), inside)))
        E.oblige(st, "listed-is-accepted", z3.Implies(z3.Or(z3.Select(self.exact, self.c), inside), r))

    # call sites: the tables are constants of the program, decided by evaluation
    def apply(self, E, st, args, kwargs):
        names = ["char", "exact_matches", "match_ranges"]
        a = dict(zip(names, args)) | kwargs
        ex, rg = a["exact_matches"], a["match_ranges"]

        def const(v):
            if isinstance(v, C):
                return v.v
            if isinstance(v, Tup):
                return tuple(const(x) for x in v.items)
            raise Unsupported("table is not a constant")
        exact, ranges = const(ex), const(rg)
        E.oblige(st, "table-sorted-and-disjoint", z3.BoolVal(all(x <= y for x, y in ranges) and all(ranges[k][1] < ranges[k + 1][0] for k in range(len(ranges) - 1))))
        E.oblige(st, "exact-entries-are-single-characters", z3.BoolVal(all(isinstance(x, str) and len(x) == 1 for x in exact)))
        key = tuple(sorted({ord(x) for x in exact if len(x) == 1} | {k for x, y in ranges for k in range(x, y + 1)}))
        self.table = key
        t = TABLES.setdefault(hash(key), (key, z3.Function(f"listed{len(TABLES)}", z3.StringSort(), z3.BoolSort())))
        return [(st, S(TBool, t[1](E.embed(st, a["char"], TStr))))]


TABLES = {}


class IsIdStart(Contract):
    """is_id_start: the table given to is_match is Unicode's ID_Start."""

    fn = U + ":is_id_start"
    modular = (IsMatch,)
    prop = "start"

    def setup(self, E, st):
        self.c = TStr.const("char")
        st.assume(z3.Length(self.c) == 1)
        return [S(TStr, self.c)], {}

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        from rt.c19 import reference
        ref, free = reference(self.prop)
        ok = []
        for key, f in TABLES.values():
            same = B(E.truth(st, res)) == f(self.c)
            ok.append(z3.And(same, z3.BoolVal(set(key) - free == ref - free)))
        E.oblige(st, "is-exactly-the-unicode-property", z3.Or(*ok))


class IsIdContinue(IsIdStart):
    fn = U + ":is_id_continue"
    prop = "continue"


CONTRACTS = {"C19": [IsMatch, IsIdStart, IsIdContinue]}
