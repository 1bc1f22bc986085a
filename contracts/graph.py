"""C01/C02: the file dependency graph (vanillaplusjs/build/graph.py)."""
import z3
from vc.values import *
from vc.engine import SRC, B
from vc.contracts import Contract

M = "vanillaplusjs.build.graph"
Path = TU("Path")
Node = TRef("Node")
NB, PB = TBag(Node), TBag(Path)
NMap = TMap(Path, Node)
FIELDS = {"path": Path, "filesize": TInt, "mtime": TReal, "inode": TInt, "parents": NB, "children": NB, "$alive": TBool}

m_, n_, x_ = (z3.Const(k, Node.sort()) for k in "mnx")
p_, q_ = (z3.Const(k, Path.sort()) for k in "pq")
j_ = z3.Int("j")
F = z3.ForAll


def bag(t, l, e):
    return z3.Select(t.fns()[2](l), e)


class View:
    """Abstract view of a graph in a state."""

    def __init__(self, E, st, g):
        self.f = {k: st.fields[("Node", k)][1] for k in FIELDS}
        nm = st.heap[g.lid].fields["nodes"]
        e = E.embed(st, nm, NMap)
        self.has, self.get = NMap.has(e), NMap.get(e)

    def sel(self, k, n):
        return z3.Select(self.f[k], n)

    def cnt(self, k, n, x):
        return bag(NB, self.sel(k, n), x)

    def ing(self, n):
        p = self.sel("path", n)
        return z3.And(z3.Select(self.has, p), z3.Select(self.get, p) == n)

    def inv(self):
        """The representation invariant, as named conjuncts."""
        P, Ch = self.f["parents"], self.f["children"]
        gp = z3.Select(self.get, p_)
        return {
            "keyed-by-path": F([p_], z3.Implies(z3.Select(self.has, p_), z3.And(self.sel("path", gp) == p_, self.sel("$alive", gp))), patterns=[z3.Select(self.has, p_), gp]),
            "children-in-graph": F([n_, m_], z3.Implies(z3.And(self.ing(n_), self.cnt("children", n_, m_) > 0), self.ing(m_)), patterns=[self.cnt("children", n_, m_)]),
            "parents-in-graph": F([n_, m_], z3.Implies(z3.And(self.ing(n_), self.cnt("parents", n_, m_) > 0), self.ing(m_)), patterns=[self.cnt("parents", n_, m_)]),
            "mirror": F([n_, m_], z3.Implies(z3.And(self.ing(n_), self.ing(m_)), self.cnt("children", n_, m_) == self.cnt("parents", m_, n_)), patterns=[self.cnt("children", n_, m_), self.cnt("parents", m_, n_)]),
        }


class GraphContract(Contract):
    bag_elems = (Path, Node)
    timeout = 12

    def base(self, E, st):
        mod = __import__(M, fromlist=["x"])
        self.NodeCls, self.GraphCls = mod.FileDependencyGraphNode, mod.FileDependencyGraph
        E.refcls["Node"] = self.NodeCls
        E.use_bag(NB)
        E.use_bag(PB)
        for k, t in FIELDS.items():
            st.fields[("Node", k)] = (t, z3.Const("F0_" + k, z3.ArraySort(Node.sort(), t.sort())))
        nodes = st.alloc(DictCell(sym=S(NMap, NMap.const("nodes0"))))
        g = st.alloc(ObjCell(self.GraphCls, {"nodes": nodes}))
        self.g = g
        v = View(E, st, g)
        st.assume(*v.inv().values())
        return g, v

    def construct_hook(self, E, st, cls, vals):
        if cls is not self.NodeCls:
            return None
        n = Node.fresh("new")
        st.assume(z3.Not(z3.Select(st.fields[("Node", "$alive")][1], n)))
        for k, t in FIELDS.items():
            _, arr = st.fields[("Node", k)]
            v = z3.BoolVal(True) if k == "$alive" else E.embed(st, vals[k], t)
            st.fields[("Node", k)] = (t, z3.Store(arr, n, v))
        return [(st, S(Node, n))]

    def eq_hook(self, E, st, a, b):
        """node == node: used only for nodes of one graph, whose paths differ;
        the contract of FileDependencyGraphNode.__eq__ (eq_path below) gives
        'different path => False', and identical objects compare equal."""
        if all(isinstance(x, S) and x.t == Node for x in (a, b)):
            raise Unsupported("node comparison")
        return None

    def candidates(self, E, lc):
        st, en = lc.st, lc.entry
        out = []
        cur = {k: st.fields[("Node", k)][1] for k in FIELDS}
        ent = {k: en.fields[("Node", k)][1] for k in FIELDS}
        v = View(E, st, self.g)
        lst = lc.it.bag if lc.it is not None else None
        ix = lc.idx
        P, P0, Ch, Ch0 = cur["parents"], ent["parents"], cur["children"], ent["children"]
        refs = lc.typed(Node)
        names = {"parents": (P, P0), "children": (Ch, Ch0)}
        for k in FIELDS:
            if k in names:
                continue
            if cur[k] is not ent[k] or st is en:
                out.append((f"{k}-unchanged", cur[k] == ent[k]))
        for nm, r, r0 in refs:
            for k, (A, A0) in names.items():
                if A is A0 and st is not en:
                    continue
                Sel = lambda a, b: z3.Select(a, b)
                out.append((f"{k}:only-{nm}-counts-change", F([m_, x_], z3.Implies(x_ != r, bag(NB, Sel(A, m_), x_) == bag(NB, Sel(A0, m_), x_)), patterns=[bag(NB, Sel(A, m_), x_), bag(NB, Sel(A0, m_), x_)])))
                out.append((f"{k}:others-than-{nm}-unchanged", F([m_], z3.Implies(m_ != r, Sel(A, m_) == Sel(A0, m_)), patterns=[Sel(A, m_)])))
                out.append((f"{k}:outside-graph-unchanged[{nm}]", F([m_], z3.Implies(z3.And(z3.Not(v.ing(m_)), m_ != r), Sel(A, m_) == Sel(A0, m_)), patterns=[Sel(A, m_)])))
                if lst is not None and lst.t == PB:
                    pb = lambda p: z3.Select(PB.fns()[4](lst.e, ix), p)
                    out.append((f"{k}:gains-{nm}-per-listed-path", F([m_], z3.Implies(v.ing(m_), bag(NB, Sel(A, m_), r) == bag(NB, Sel(A0, m_), r) + pb(Sel(cur["path"], m_))), patterns=[bag(NB, Sel(A, m_), r), bag(NB, Sel(A0, m_), r)])))
                    out.append((f"{k}:unlisted-unchanged[{nm}]", F([m_], z3.Implies(pb(Sel(cur["path"], m_)) == 0, Sel(A, m_) == Sel(A0, m_)), patterns=[Sel(A, m_)])))
                    ln, at = NB.fns()[0], NB.fns()[1]
                    out.append((f"{k}:of-{nm}-gains-listed", F([m_], z3.Implies(v.ing(m_), bag(NB, Sel(A, r), m_) == bag(NB, Sel(A0, r), m_) + pb(Sel(cur["path"], m_))), patterns=[bag(NB, Sel(A, r), m_)])))
                    out.append((f"{k}:of-{nm}-only-graph-nodes", F([m_], z3.Implies(z3.Not(v.ing(m_)), bag(NB, Sel(A, r), m_) == bag(NB, Sel(A0, r), m_)), patterns=[bag(NB, Sel(A, r), m_)])))
                    out.append((f"{k}:of-{nm}-grows", ln(Sel(A, r)) == ln(Sel(A0, r)) + ix))
                    out.append((f"{k}:of-{nm}-in-order", F([j_], z3.Implies(z3.And(0 <= j_, j_ < ix), at(Sel(A, r), ln(Sel(A0, r)) + j_) == z3.Select(v.get, PB.fns()[1](lst.e, j_))), patterns=[PB.fns()[1](lst.e, j_), at(Sel(A, r), ln(Sel(A0, r)) + j_)])))
                    out.append((f"{k}:of-{nm}-keeps", F([j_], z3.Implies(z3.And(0 <= j_, j_ < ln(Sel(A0, r))), at(Sel(A, r), j_) == at(Sel(A0, r), j_)), patterns=[at(Sel(A, r), j_)])))
                if lst is not None and lst.t == NB:
                    pbn = lambda m: z3.Select(NB.fns()[4](lst.e, ix), m)
                    out.append((f"{k}:loses-{nm}-per-listed-node", F([m_], bag(NB, Sel(A, m_), r) == bag(NB, Sel(A0, m_), r) - pbn(m_), patterns=[bag(NB, Sel(A, m_), r), bag(NB, Sel(A0, m_), r)])))
                    out.append((f"{k}:unlisted-unchanged[{nm}]", F([m_], z3.Implies(pbn(m_) == 0, Sel(A, m_) == Sel(A0, m_)), patterns=[Sel(A, m_)])))
        return out

    def frame_meta(self, E, st, v0, v1, except_=None):
        for k in ("path", "filesize", "mtime", "inode"):
            g = F([m_], z3.Implies(v0.ing(m_), v1.sel(k, m_) == v0.sel(k, m_)))
            E.oblige(st, f"frame-{k}", g)

    def post_inv(self, E, st, v1):
        for k, g in v1.inv().items():
            E.oblige(st, f"invariant-{k}", g)


class AddFile(GraphContract):
    fn = M + ":FileDependencyGraph.add_file"
    title = "add_file"
    expect_paths = 4

    def setup(self, E, st):
        g, self.v0 = self.base(E, st)
        self.a = Path.const("a")
        self.meta = {"filesize": TInt.const("fs"), "mtime": TReal.const("mt"), "inode": TInt.const("ino")}
        self.cl = TOpt(PB).const("children")
        args = [g, S(Path, self.a)] + [S(FIELDS[k], self.meta[k]) for k in ("filesize", "mtime", "inode")] + [S(TOpt(PB), self.cl)]
        return args, {}

    def post(self, E, pre, st, res):
        v0, v1 = self.v0, View(E, st, self.g)
        T = TOpt(PB)
        l = T.val(self.cl)
        ln, at, bg = PB.fns()[:3]
        has_list = z3.Not(T.is_none(self.cl))
        bad = z3.Or(z3.Select(v0.has, self.a), z3.And(has_list, z3.Exists([j_], z3.And(0 <= j_, j_ < ln(l), z3.Not(z3.Select(v0.has, at(l, j_)))))))
        if isinstance(res, Raised):
            E.oblige(st, "raises-ValueError-only-when-invalid", z3.And(bad, z3.BoolVal(res.cls is ValueError)), res.msg)
            self.unchanged(E, st, v0, v1)
            return
        E.oblige(st, "accepts-only-valid", z3.Not(bad))
        n = z3.Select(v1.get, self.a)
        E.oblige(st, "adds-exactly-a", F([p_], z3.Select(v1.has, p_) == z3.Or(z3.Select(v0.has, p_), p_ == self.a)))
        E.oblige(st, "keeps-other-nodes", F([p_], z3.Implies(z3.Select(v0.has, p_), z3.Select(v1.get, p_) == z3.Select(v0.get, p_))))
        for k, e in self.meta.items():
            E.oblige(st, f"stores-{k}", v1.sel(k, n) == e)
        lst = z3.If(has_list, ln(l), 0)
        E.oblige(st, "children-count", NB.fns()[0](v1.sel("children", n)) == lst)
        E.oblige(st, "children-in-order", z3.Implies(has_list, F([j_], z3.Implies(z3.And(0 <= j_, j_ < ln(l)), NB.fns()[1](v1.sel("children", n), j_) == z3.Select(v1.get, at(l, j_))), patterns=[at(l, j_)])))
        E.oblige(st, "parents-start-empty", NB.fns()[0](v1.sel("parents", n)) == 0)
        E.oblige(st, "other-children-unchanged", F([m_], z3.Implies(v0.ing(m_), v1.sel("children", m_) == v0.sel("children", m_))))
        E.oblige(st, "other-parents-gain-only-a", F([m_, x_], z3.Implies(z3.And(v0.ing(m_), v0.ing(x_)), v1.cnt("parents", m_, x_) == v0.cnt("parents", m_, x_))))
        self.frame_meta(E, st, v0, v1)
        self.post_inv(E, st, v1)

    def unchanged(self, E, st, v0, v1):
        for k in FIELDS:
            if k != "$alive":
                E.oblige(st, f"error-leaves-{k}", F([m_], z3.Implies(v0.ing(m_), v1.sel(k, m_) == v0.sel(k, m_))))
        E.oblige(st, "error-leaves-nodes", F([p_], z3.And(z3.Select(v1.has, p_) == z3.Select(v0.has, p_), z3.Implies(z3.Select(v0.has, p_), z3.Select(v1.get, p_) == z3.Select(v0.get, p_)))))


class RemoveFile(AddFile):
    fn = M + ":FileDependencyGraph.remove_file"
    title = "remove_file"
    expect_paths = 4

    def setup(self, E, st):
        g, self.v0 = self.base(E, st)
        self.a = Path.const("a")
        self.cp, self.cc = TBool.const("clear_parents"), TBool.const("clear_children")
        return [g, S(Path, self.a), S(TBool, self.cp), S(TBool, self.cc)], {}

    def post(self, E, pre, st, res):
        v0, v1 = self.v0, View(E, st, self.g)
        n = z3.Select(v0.get, self.a)
        ln = NB.fns()[0]
        bad = z3.Or(z3.Not(z3.Select(v0.has, self.a)), z3.And(ln(v0.sel("parents", n)) > 0, z3.Not(self.cp)), z3.And(ln(v0.sel("children", n)) > 0, z3.Not(self.cc)))
        if isinstance(res, Raised):
            E.oblige(st, "raises-ValueError-only-when-invalid", z3.And(bad, z3.BoolVal(res.cls is ValueError)), res.msg)
            self.unchanged(E, st, v0, v1)
            return
        E.oblige(st, "accepts-only-valid", z3.Not(bad))
        E.oblige(st, "removes-exactly-a", F([p_], z3.Select(v1.has, p_) == z3.And(z3.Select(v0.has, p_), p_ != self.a)))
        E.oblige(st, "keeps-other-nodes", F([p_], z3.Implies(z3.Select(v1.has, p_), z3.Select(v1.get, p_) == z3.Select(v0.get, p_))))
        for k in ("parents", "children"):
            E.oblige(st, f"{k}-lose-only-a", F([m_, x_], z3.Implies(z3.And(v1.ing(m_), v1.ing(x_)), v1.cnt(k, m_, x_) == v0.cnt(k, m_, x_))))
        self.frame_meta(E, st, v0, v1)
        self.post_inv(E, st, v1)


class CheckFile(GraphContract):
    fn = M + ":FileDependencyGraph.check_file"
    title = "check_file"
    expect_paths = 2

    def setup(self, E, st):
        g, self.v0 = self.base(E, st)
        self.a = Path.const("a")
        self.meta = {"filesize": TInt.const("fs"), "mtime": TReal.const("mt"), "inode": TInt.const("ino")}
        return [g, S(Path, self.a)] + [S(FIELDS[k], self.meta[k]) for k in ("filesize", "mtime", "inode")], {}

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        n = z3.Select(self.v0.get, self.a)
        want = z3.And(z3.Select(self.v0.has, self.a), *[self.v0.sel(k, n) == e for k, e in self.meta.items()])
        E.oblige(st, "exactly-when-all-metadata-match", B(E.truth(st, res)) == want)


class GetNeighbours(GraphContract):
    kind = None

    def setup(self, E, st):
        g, self.v0 = self.base(E, st)
        self.a = Path.const("a")
        return [g, S(Path, self.a)], {}

    def post(self, E, pre, st, res):
        v0 = self.v0
        if isinstance(res, Raised):
            E.oblige(st, "raises-only-when-unknown", z3.And(z3.BoolVal(res.cls is ValueError), z3.Not(z3.Select(v0.has, self.a))))
            return
        E.oblige(st, "known", z3.Select(v0.has, self.a))
        l = E.embed(st, res, PB)
        src = v0.sel(self.kind, z3.Select(v0.get, self.a))
        E.oblige(st, "length", PB.fns()[0](l) == NB.fns()[0](src))
        E.oblige(st, "paths-in-order", F([j_], z3.Implies(z3.And(0 <= j_, j_ < NB.fns()[0](src)), PB.fns()[1](l, j_) == v0.sel("path", NB.fns()[1](src, j_)))))


class GetParents(GetNeighbours):
    fn = M + ":FileDependencyGraph.get_parents"
    title = "get_parents"
    kind = "parents"
    expect_paths = 2


class GetChildren(GetNeighbours):
    fn = M + ":FileDependencyGraph.get_children"
    title = "get_children"
    kind = "children"
    expect_paths = 2


# ------------------------------------------------------------------ C02
Reach = {d: z3.Function("Reach_" + d, Node.sort(), Node.sort(), z3.BoolSort()) for d in ("children", "parents")}
Card = z3.Function("Card", z3.ArraySort(Path.sort(), z3.BoolSort()), z3.IntSort())


def reach_axioms(E, v):
    """Reach_d(n, m): m is at the end of a non-empty d-path from n (least
    relation closed under the two rules below; leastness is used through
    explicit induction instances, see GraphSearch.lemmas)."""
    for d, R in Reach.items():
        E.axiom(("reach", d),
                F([n_, m_], z3.Implies(z3.And(v.ing(n_), v.cnt(d, n_, m_) > 0), R(n_, m_)), patterns=[v.cnt(d, n_, m_)]),
                F([n_, m_, x_], z3.Implies(z3.And(R(n_, m_), v.cnt(d, m_, x_) > 0), R(n_, x_)), patterns=[z3.MultiPattern(R(n_, m_), v.cnt(d, m_, x_))]))


class CheckDirect(GraphContract):
    fn = M + ":FileDependencyGraph.check_direct_relationship"
    title = "check_direct_relationship"
    expect_paths = 5

    def setup(self, E, st):
        g, self.v0 = self.base(E, st)
        self.a, self.b = Path.const("a"), Path.const("b")
        return [g, S(Path, self.a), S(Path, self.b)], {}

    def relation(self, E, st, v0, a, b):
        na, nb = z3.Select(v0.get, a), z3.Select(v0.get, b)
        up, down = v0.cnt("parents", na, nb) > 0, v0.cnt("children", na, nb) > 0
        return up, down

    def post(self, E, pre, st, res):
        v0 = self.v0
        bad = z3.Or(self.a == self.b, z3.Not(z3.Select(v0.has, self.a)), z3.Not(z3.Select(v0.has, self.b)))
        if isinstance(res, Raised):
            E.oblige(st, "raises-ValueError-only-when-invalid", z3.And(bad, z3.BoolVal(res.cls is ValueError)), res.msg)
            return
        E.oblige(st, "accepts-only-valid", z3.Not(bad))
        up, down = self.relation(E, st, v0, self.a, self.b)
        FR = __import__(M, fromlist=["x"]).FileRelationship
        if isinstance(res, C):
            want = {FR.cyclic: z3.And(up, down), FR.child: z3.And(up, z3.Not(down)), FR.parent: z3.And(down, z3.Not(up)), FR.unrelated: z3.And(z3.Not(up), z3.Not(down))}.get(res.v, z3.BoolVal(False))
            E.oblige(st, f"exact-relation[{res.v}]", want)
        else:
            E.oblige(st, "returns-a-relation", z3.BoolVal(False))


class CheckNested(CheckDirect):
    fn = M + ":FileDependencyGraph.check_nested_relationship"
    title = "check_nested_relationship"
    expect_paths = 5

    def setup(self, E, st):
        r = super().setup(E, st)
        reach_axioms(E, self.v0)
        PS = z3.ArraySort(Path.sort(), z3.BoolSort())
        s = z3.Const("s", PS)
        E.axiom("card",
                F([s, p_], z3.Implies(z3.Not(z3.Select(s, p_)), Card(z3.Store(s, p_, z3.BoolVal(True))) == Card(s) + 1), patterns=[Card(z3.Store(s, p_, z3.BoolVal(True)))]),
                F([s, p_], z3.Implies(z3.Select(s, p_), z3.Store(s, p_, z3.BoolVal(True)) == s), patterns=[Card(z3.Store(s, p_, z3.BoolVal(True)))]),
                # sub-sets of the (finite) key set of the graph
                F([s], z3.Implies(F([p_], z3.Implies(z3.Select(s, p_), z3.Select(self.v0.has, p_)), patterns=[z3.Select(s, p_)]), Card(s) <= Card(self.v0.has)), patterns=[Card(s)]))
        return r

    def relation(self, E, st, v0, a, b):
        na, nb = z3.Select(v0.get, a), z3.Select(v0.get, b)
        return Reach["parents"](na, nb), Reach["children"](na, nb)

    def sets(self, lc):
        return lc.typed(TSet(Path))

    def lists(self, lc):
        out = []
        for nm, e, e0 in lc.typed(NB):
            if not (lc.it is not None and lc.it.bag is not None and z3.eq(e, lc.it.bag.e)):
                out.append((nm, e, e0))
        return out

    def lemmas(self, E, lc):
        """Induction: if every d-neighbour of n0 is in S and S is closed under
        d-edges then everything d-reachable from n0 is in S."""
        out = []
        v = self.v0
        na = z3.Select(v.get, self.a)
        for nm, s, _ in self.sets(lc):
            ins = lambda m: z3.Select(s, v.sel("path", m))
            for d, R in Reach.items():
                closed = z3.And(
                    F([m_], z3.Implies(v.cnt(d, na, m_) > 0, ins(m_)), patterns=[v.cnt(d, na, m_)]),
                    F([n_, m_], z3.Implies(z3.And(v.ing(n_), ins(n_), v.cnt(d, n_, m_) > 0), ins(m_)), patterns=[v.cnt(d, n_, m_)]))
                out.append(z3.Implies(closed, F([m_], z3.Implies(R(na, m_), ins(m_)), patterns=[R(na, m_)])))
        return out

    def candidates(self, E, lc):
        v = self.v0
        out = []
        na = z3.Select(v.get, self.a)
        ln, at, bg, ix, pbf = NB.fns()[:5]
        lst = lc.it.bag if lc.it is not None else None
        refs = lc.typed(Node)
        for snm, s, s0 in self.sets(lc):
            ins = lambda m: z3.Select(s, v.sel("path", m))
            out.append((f"{snm}-in-graph", F([p_], z3.Implies(z3.Select(s, p_), z3.Select(v.has, p_)), patterns=[z3.Select(s, p_)])))
            for d, R in Reach.items():
                out.append((f"{snm}-reached-{d}", F([p_], z3.Implies(z3.Select(s, p_), R(na, z3.Select(v.get, p_))), patterns=[z3.Select(s, p_)])))
                out.append((f"{snm}-has-neighbours-{d}", F([m_], z3.Implies(v.cnt(d, na, m_) > 0, ins(m_)), patterns=[v.cnt(d, na, m_)])))
            if s0 is not None:
                out.append((f"{snm}-grows", F([p_], z3.Implies(z3.Select(s0, p_), z3.Select(s, p_)), patterns=[z3.Select(s, p_), z3.Select(s0, p_)])))
            if lst is not None and lst.t == NB:
                out.append((f"{snm}-has-iterated", F([j_], z3.Implies(z3.And(0 <= j_, j_ < lc.idx), ins(at(lst.e, j_))), patterns=[at(lst.e, j_)])))
                out.append((f"{snm}-has-iterated-bag", F([m_], z3.Implies(z3.Select(pbf(lst.e, lc.idx), m_) > 0, ins(m_)), patterns=[v.sel("path", m_)])))
            for qnm, q, q0 in self.lists(lc):
                inq = lambda m: bag(NB, q, m) > 0
                out.append((f"{qnm}-in-graph", F([m_], z3.Implies(inq(m_), v.ing(m_)), patterns=[bag(NB, q, m_)])))
                out.append((f"{qnm}-in-{snm}", F([m_], z3.Implies(inq(m_), ins(m_)), patterns=[bag(NB, q, m_)])))
                for tnm, tp, _ in lc.typed(Path):
                    if z3.is_const(tp):
                        out.append((f"{snm}-done-not-{tnm}/{qnm}", F([m_], z3.Implies(z3.And(v.ing(m_), ins(m_), z3.Not(inq(m_))), v.sel("path", m_) != tp), patterns=[v.sel("path", m_)])))
                        for rnm, r, _ in refs:
                            out.append((f"{snm}-done-not-{tnm}/{qnm}/{rnm}", F([m_], z3.Implies(z3.And(v.ing(m_), ins(m_), z3.Not(inq(m_)), m_ != r), v.sel("path", m_) != tp), patterns=[v.sel("path", m_)])))
                            out.append((f"{rnm}-is-not-{tnm}", v.sel("path", r) != tp))
                for d in Reach:
                    body = lambda extra: F([n_, m_], z3.Implies(z3.And(v.ing(n_), ins(n_), z3.Not(inq(n_)), v.cnt(d, n_, m_) > 0, *extra), ins(m_)), patterns=[v.cnt(d, n_, m_)])
                    out.append((f"{snm}-closed-{d}/{qnm}", body([])))
                    for rnm, r, _ in refs:
                        out.append((f"{snm}-closed-{d}/{qnm}/except-{rnm}", body([n_ != r])))
                if s0 is not None and q0 is not None:
                    out.append((f"|{snm}|-|{qnm}|-const", Card(s) - ln(q) == Card(s0) - ln(q0)))
        return out

    def measures(self, E, lc):
        ln = NB.fns()[0]
        return [(f"unseen+{qnm}", Card(self.v0.has) - Card(s) + ln(q)) for snm, s, _ in self.sets(lc) for qnm, q, _ in self.lists(lc)]

    # used by callers
    def apply(self, E, st, args, kwargs):
        g, a, b = args
        v = View(E, st, g)
        a, b = a.e, b.e
        bad = z3.Or(a == b, z3.Not(z3.Select(v.has, a)), z3.Not(z3.Select(v.has, b)))
        ok, no = E.fork(st, z3.Not(bad))
        out = []
        if no is not None:
            out.append((no, Raised(ValueError, "check_nested_relationship")))
        if ok is not None:
            E.oblige(ok, "nested-relationship-of-a-well-formed-graph", z3.And(*v.inv().values()))
            up, down = self.relation(E, ok, v, a, b)
            FR = __import__(M, fromlist=["x"]).FileRelationship
            for val, cond in ((FR.cyclic, z3.And(up, down)), (FR.child, z3.And(up, z3.Not(down))), (FR.parent, z3.And(down, z3.Not(up))), (FR.unrelated, z3.And(z3.Not(up), z3.Not(down)))):
                h, _ = E.fork(ok, cond)
                if h is not None:
                    out.append((h, C(val)))
        return out


class SetChildren(AddFile):
    fn = M + ":FileDependencyGraph.set_children"
    title = "set_children"
    expect_paths = 3
    modular = (CheckNested,)

    def setup(self, E, st):
        g, self.v0 = self.base(E, st)
        self.a = Path.const("a")
        self.cl = PB.const("children")
        self.pc_ = TBool.const("prevent_cycles")
        return [g, S(Path, self.a), S(PB, self.cl), S(TBool, self.pc_)], {}

    def post(self, E, pre, st, res):
        v0, v1 = self.v0, View(E, st, self.g)
        ln, at, bg = PB.fns()[:3]
        l = self.cl
        na = z3.Select(v0.get, self.a)
        each = lambda f: z3.Exists([j_], z3.And(0 <= j_, j_ < ln(l), f(at(l, j_))))
        unknown = z3.Or(z3.Not(z3.Select(v0.has, self.a)), each(lambda c: z3.Not(z3.Select(v0.has, c))))
        cyc = each(lambda c: z3.Or(c == self.a, Reach["parents"](na, z3.Select(v0.get, c))))
        bad = z3.Or(unknown, z3.And(self.pc_, cyc))
        if isinstance(res, Raised):
            E.oblige(st, "raises-ValueError-only-when-invalid", z3.And(bad, z3.BoolVal(res.cls is ValueError)), res.msg)
            self.unchanged(E, st, v0, v1)
            return
        E.oblige(st, "rejects-unknown", z3.Not(unknown))
        E.oblige(st, "rejects-cycles-when-asked", z3.Not(z3.And(self.pc_, cyc)))
        E.oblige(st, "same-files", F([p_], z3.And(z3.Select(v1.has, p_) == z3.Select(v0.has, p_), z3.Implies(z3.Select(v1.has, p_), z3.Select(v1.get, p_) == z3.Select(v0.get, p_)))))
        E.oblige(st, "children-count", NB.fns()[0](v1.sel("children", na)) == ln(l))
        E.oblige(st, "children-in-order", F([j_], z3.Implies(z3.And(0 <= j_, j_ < ln(l)), NB.fns()[1](v1.sel("children", na), j_) == z3.Select(v1.get, at(l, j_))), patterns=[at(l, j_)]))
        E.oblige(st, "other-children-unchanged", F([m_], z3.Implies(z3.And(v0.ing(m_), m_ != na), v1.sel("children", m_) == v0.sel("children", m_))))
        E.oblige(st, "other-parent-links-unchanged", F([m_, x_], z3.Implies(z3.And(v0.ing(m_), v0.ing(x_), x_ != na), v1.cnt("parents", m_, x_) == v0.cnt("parents", m_, x_))))
        self.frame_meta(E, st, v0, v1)
        self.post_inv(E, st, v1)


class NodeEqPath(GraphContract):
    """What list.remove relies on: nodes with different paths are unequal."""
    fn = M + ":FileDependencyGraphNode.__eq__"
    title = "FileDependencyGraphNode.__eq__ (different paths)"
    expect_paths = 1

    def setup(self, E, st):
        g, self.v0 = self.base(E, st)
        a, b = Node.const("self"), Node.const("other")
        st.assume(self.v0.sel("path", a) != self.v0.sel("path", b))
        return [S(Node, a), S(Node, b)], {}

    def post(self, E, pre, st, res):
        if self.no_raise(E, st, res):
            E.oblige(st, "different-paths-are-unequal", z3.BoolVal(isinstance(res, C) and res.v is False))


CONTRACTS = {
    "C01": [AddFile, RemoveFile, SetChildren, CheckFile, GetParents, GetChildren, NodeEqPath],
    "C02": [CheckDirect, CheckNested, SetChildren],
}
