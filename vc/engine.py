"""Verification-condition generator: forward symbolic execution of the Python
source in /repo (read on every run), loops cut by inductive invariants, calls
either replaced by the callee's contract or inlined."""
import ast
import builtins as pybuiltins
import enum
import importlib
import inspect
import os
import sys
import types as pytypes
import z3

from .values import *
from . import solver

REPO = os.environ.get("VERIF_REPO", "/repo")


class SourceDB:
    def __init__(self):
        self.trees = {}
        self.files = {}

    def tree(self, modname):
        if modname not in self.trees:
            path = os.path.join(REPO, *modname.split(".")) + ".py"
            if not os.path.exists(path):
                path = os.path.join(REPO, *modname.split("."), "__init__.py")
            with open(path, encoding="utf-8") as f:
                src = f.read()
            self.trees[modname] = ast.parse(src, filename=path)
            self.files[modname] = path
        return self.trees[modname]

    def find(self, modname, qual):
        node = self.tree(modname)
        cls = None
        for part in qual.split("."):
            if part == "<locals>":
                continue
            for ch in node.body:
                if isinstance(ch, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and ch.name == part:
                    if isinstance(ch, ast.ClassDef):
                        cls = ch
                    node = ch
                    break
            else:
                raise Unsupported(f"{modname}:{qual} not found in source")
        return node


SRC = SourceDB()


class Fr:
    """Static context of executing code: its frame id, lexical parent, module."""

    def __init__(self, fid, parent, module, qual, cls=None, node=None):
        self.fid, self.parent, self.module, self.qual, self.cls, self.node = fid, parent, module, qual, cls, node
        self.nonlocals = set()
        self.globals_ = set()
        self.genhook = None


class Obligation:
    def __init__(self, name, pc, goal, where=""):
        self.name, self.pc, self.goal, self.where = name, list(pc), goal, where


def is_generator(node):
    for n in _walk_shallow(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def _walk_shallow(node):
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def assigned_names(stmts):
    out = set()

    class Vv(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    for s in stmts:
        Vv().visit(s)
    return out


def _and(es):
    es = [e for e in es if not z3.is_true(e)]
    if not es:
        return z3.BoolVal(True)
    return es[0] if len(es) == 1 else z3.And(*es)


def _or(es):
    es = list(es)
    if not es:
        return z3.BoolVal(False)
    return es[0] if len(es) == 1 else z3.Or(*es)


def has_ite(e):
    if z3.is_app(e):
        if e.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_OR, z3.Z3_OP_AND, z3.Z3_OP_NOT):
            return True
        return any(has_ite(c) for c in e.children())
    return False


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class SymIter:
    """A symbolic sequence: length term, element function, optional lvalue."""

    def __init__(self, length, elem, base=None, lv=None, bag=None):
        self.length, self.elem, self.base, self.lv, self.bag = length, elem, base, lv, bag


class LoopCtx:
    """What a loop-invariant candidate may talk about."""

    def __init__(self, E, st, entry, fr, idx, it, node):
        self.E, self.st, self.entry, self.fr, self.idx, self.it, self.node = E, st, entry, fr, idx, it, node

    def frames(self):
        f = self.fr
        while f is not None:
            yield f
            f = f.parent

    def locals(self, st=None):
        st = st or self.st
        out = {}
        for fid in sorted(st.frames):
            if fid not in self.entry.frames:
                continue
            for k, v in st.frames[fid].items():
                out[(fid, k)] = v
        return out

    def before(self, k, v, t):
        """v as it was before the loop; what describes it holds here too"""
        memo = self.E.embedded.setdefault(id(self.entry), (self.entry, {}))[1]
        if (k, t.name if hasattr(t, "name") else str(t)) not in memo:
            n = len(self.entry.pc)
            e = self.E.try_embed(self.entry, v, t)
            memo[k, t.name if hasattr(t, "name") else str(t)] = (e, list(self.entry.pc[n:]))
        e, facts = memo[k, t.name if hasattr(t, "name") else str(t)]
        if any(all(not z3.eq(f, p) for p in self.st.pc) for f in facts):
            self.st.assume(*facts)
        return e

    def typed(self, t):
        """[(name, expr now, expr at loop entry or None)] for locals of type t."""
        res = []
        ent = self.locals(self.entry)
        for k, v in self.locals().items():
            e = self.E.try_embed(self.st, v, t)
            if e is None:
                continue
            e0 = self.before(k, ent[k], t) if k in ent else None
            res.append((f"{k[1]}@{k[0]}", e, e0))
        return res


class Engine:
    MAX_DEPTH = 40
    MAX_UNROLL = 400

    def __init__(self, contract=None, modular=None, models=None, timeout=10.0):
        self.contract = contract
        self.modular = modular or {}
        self.models = dict(models or {})
        self.merging = getattr(contract, "merge", False)
        self.axioms = []
        self._axkeys = set()
        self.obls = []
        self.recs = []  # TRec types usable for dict literals
        self.refcls = {}  # cname -> python class
        self.timeout = timeout
        self.depth = 0
        self.inlined = set()
        self.contracts_used = set()
        self.loopinfo = []
        self.silent = 0
        self.covers = []
        self.quick_feas = 80
        self.unsup = []
        self.effort = 0
        self.discover = 0
        self.hmode = 0
        self.hseen = {}
        self._feas_cache = {}
        self.embedded = {}

    # ------------------------------------------------------------ utils
    def axiom(self, key, *es):
        if key in self._axkeys:
            return
        self._axkeys.add(key)
        self.axioms.extend(es)

    def use_bag(self, t):
        self.axiom(("bag", t), *t.axioms())
        if t in getattr(self.contract, "bag_prefix_index", ()):
            self.axiom(("bagpx", t), *t.axioms(True))

    def oblige(self, st, name, goal, where=""):
        if self.silent:
            return
        self.obls.append(Obligation(name, st.pc, B(goal), where))

    def feasible(self, st):
        key = tuple(p.get_id() for p in st.pc)
        if key not in self._feas_cache:
            # keep the terms alive so that ids stay unique
            self._feas_cache[key] = (solver.feasible(self.axioms, st.pc, self.quick_feas), list(st.pc))
        return self._feas_cache[key][0]

    def fork(self, st, cond):
        """-> (state where cond, state where not cond); None when infeasible."""
        if isinstance(cond, bool):
            return (st, None) if cond else (None, st)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return st, None
        if z3.is_false(cond):
            return None, st
        a = st.copy().assume(cond)
        b = st.copy().assume(z3.Not(cond))
        fa, fb = self.feasible(a), self.feasible(b)
        return (a if fa else None), (b if fb else None)

    # ------------------------------------------------------------ values
    def shape_ty(self, st, v):
        """Ty able to represent value v (None if impossible)."""
        nt = getattr(self.contract, "none_type", None)  # type of a None within a tuple
        if isinstance(v, S):
            return v.t
        if isinstance(v, C):
            x = v.v
            if isinstance(x, enum.Enum):
                return TEnum(type(x))
            if isinstance(x, bool):
                return TBool
            if isinstance(x, int):
                return TInt
            if isinstance(x, float):
                return TReal
            if isinstance(x, str):
                return TStr
            if isinstance(x, tuple):
                return TTup(*[self.shape_ty(st, C(y)) or y is None and nt for y in x])
            return None
        if isinstance(v, Tup):
            ts = [self.shape_ty(st, x) or isinstance(x, C) and x.v is None and nt for x in v.items]
            return TTup(*ts) if all(ts) else None
        if isinstance(v, FL):
            return st.fields[(v.cname, v.field)][0]
        if isinstance(v, L):
            c = st.heap[v.lid]
            if isinstance(c, ListCell):
                if c.seq is not None:
                    return c.seq.t
                t = self.join_tys([self.shape_ty(st, x) for x in c.items], any(isinstance(x, C) and x.v is None for x in c.items))
                return self.seq_ty(t) if t is not None else None
            if isinstance(c, SetCell):
                if c.sym is not None:
                    return c.sym.t
                t = self.join_tys([self.shape_ty(st, x) for x in c.items])
                return TSet(t) if t is not None else None
            if isinstance(c, DictCell):
                if c.sym is not None:
                    return c.sym.t
                for r in self.recs:
                    if r.kind == "dict" and set(c.items) <= set(r.fields) and all(isinstance(r.fields[f], TOpt) or f in c.items for f in r.fields):
                        return r
            if isinstance(c, ObjCell):
                for r in self.recs:
                    if r.kind == "obj" and r.pycls is c.cls:
                        return r
        return None

    def seq_ty(self, t):
        if isinstance(t, TRef) or t in getattr(self.contract, "bag_elems", ()):
            return TBag(t)
        return TSeq(t)

    def join_tys(self, ts, has_none=False):
        r = None
        for t in ts:
            if t is None:
                continue
            if r is None or r == t:
                r = t
            elif isinstance(t, TOpt) and t.t == r:
                r = t
            elif isinstance(r, TOpt) and r.t == t:
                pass
            elif {type(r), type(t)} == {TInt_, TReal_}:
                r = TReal
            else:
                raise Unsupported(f"cannot join types {r} and {t}")
        if has_none and r is not None and not isinstance(r, TOpt):
            r = TOpt(r)
        return r

    def embed(self, st, v, t):
        """z3 term of type t for value v."""
        if isinstance(v, S):
            if v.t == t:
                return v.e
            if isinstance(t, TOpt):
                return t.some(self.embed(st, v, t.t))
            if t == TReal and v.t == TInt:
                return z3.ToReal(v.e)
            if t == TReal and v.t == TBool:
                return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
            if t == TInt and v.t == TBool:
                return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v.t, TOpt) and v.t.t == t:
                return v.t.val(v.e)
            raise Unsupported(f"embed {v.t} as {t}")
        if isinstance(v, C):
            return lift(v.v, t)
        if isinstance(t, TOpt):
            return t.some(self.embed(st, v, t.t))
        if isinstance(v, Tup):
            if isinstance(t, TTup) and len(t.ts) == len(v.items):
                return t.mk(*[self.embed(st, x, tt) for x, tt in zip(v.items, t.ts)])
            if isinstance(t, TSeq):
                return self._seq_of(st, v.items, t)
            raise Unsupported(f"embed tuple as {t}")
        if isinstance(v, FL):
            ty, arr = st.fields[(v.cname, v.field)]
            if ty == t:
                return z3.Select(arr, v.ref)
        if isinstance(v, L):
            c = st.heap[v.lid]
            if isinstance(c, ListCell):
                if c.seq is not None:
                    if c.seq.t == t:
                        return c.seq.e
                    raise Unsupported(f"embed list {c.seq.t} as {t}")
                if isinstance(t, TSeq):
                    return self._seq_of(st, c.items, t)
                if isinstance(t, TBag):
                    self.use_bag(t)
                    e = t.fns()[6]
                    for x in c.items:
                        e = self.bag_append(st, t, e, self.embed(st, x, t.t))
                    return e
            if isinstance(c, SetCell) and isinstance(t, TSet):
                if c.sym is not None:
                    if c.sym.t == t:
                        return c.sym.e
                else:
                    e = z3.K(t.t.sort(), z3.BoolVal(False))
                    for x in c.items:
                        e = z3.Store(e, self.embed(st, x, t.t), z3.BoolVal(True))
                    return e
            if isinstance(c, DictCell):
                if isinstance(t, TMap):
                    if c.sym is not None:
                        return c.sym.e
                    has = z3.K(t.k.sort(), z3.BoolVal(False))
                    get = z3.Const(fresh_name("dflt"), z3.ArraySort(t.k.sort(), t.v.sort()))
                    for k, x in c.items.items():
                        ke = lift(k, t.k)
                        has = z3.Store(has, ke, z3.BoolVal(True))
                        get = z3.Store(get, ke, self.embed(st, x, t.v))
                    return t.mk(has, get)
                if isinstance(t, TRec) and c.items is not None:
                    es = []
                    if not set(c.items) <= set(t.fields):
                        raise Unsupported(f"dict keys {list(c.items)} as {t}")
                    for f, ft in t.fields.items():
                        if f in c.items:
                            es.append(self.embed(st, c.items[f], ft))
                        elif isinstance(ft, TOpt):
                            es.append(ft.none())
                        else:
                            raise Unsupported(f"missing key {f}")
                    return t.mk(*es)
            if isinstance(c, ObjCell) and isinstance(t, TRec):
                return t.mk(*[self.embed(st, c.fields[f], ft) for f, ft in t.fields.items()])
        raise Unsupported(f"embed {v} as {t}")

    def try_embed(self, st, v, t):
        try:
            return self.embed(st, v, t)
        except Unsupported:
            return None
        except KeyError:
            return None

    def _seq_of(self, st, items, t):
        if not items:
            return z3.Empty(t.sort())
        us = [z3.Unit(self.embed(st, x, t.t)) for x in items]
        return us[0] if len(us) == 1 else z3.Concat(*us)

    def wrap(self, st, e, t):
        """Value for a z3 term."""
        if isinstance(t, TTup):
            return Tup([self.wrap(st, t.get(e, i), tt) for i, tt in enumerate(t.ts)])
        if t in (TInt, TBool, TStr):
            s = z3.simplify(e)
            if t == TInt and z3.is_int_value(s):
                return C(s.as_long())
            if t == TBool and (z3.is_true(s) or z3.is_false(s)):
                return C(z3.is_true(s))
            if t == TStr and z3.is_string_value(s):
                return C(py_str(s))
        return S(t, e)

    def force(self, st, v):
        """Resolve an optional value: [(st, V)] with V not of type TOpt."""
        if isinstance(v, S) and isinstance(v.t, TOpt):
            a, b = self.fork(st, v.t.is_none(v.e))
            out = []
            if a is not None:
                out.append((a, NONE))
            if b is not None:
                out += self.force(b, self.wrap(b, v.t.val(v.e), v.t.t))
            return out
        return [(st, v)]

    def truth(self, st, v):
        if isinstance(v, C):
            return bool(v.v)
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, S):
            t = v.t
            if t == TBool:
                return v.e
            if t == TInt:
                return v.e != 0
            if t == TReal:
                return v.e != 0
            if t == TStr or isinstance(t, TSeq):
                return z3.Length(v.e) > 0
            if isinstance(t, TBag):
                return t.fns()[0](v.e) > 0
            if isinstance(t, TEnum):
                m = [x for x in t.cls if not x]
                return True if not m else z3.Not(_or([v.e == t.member(x) for x in m]))
            if isinstance(t, (TRef, TRec)):
                return True
            if isinstance(t, TU):
                return z3.Function("truthy_" + t.nm(), t.sort(), z3.BoolSort())(v.e)
            raise Unsupported(f"truth of {t}")
        if isinstance(v, FL):
            t, arr = st.fields[(v.cname, v.field)]
            return self.truth(st, S(t, z3.Select(arr, v.ref)))
        if isinstance(v, L):
            c = st.heap[v.lid]
            if isinstance(c, ListCell):
                return bool(c.items) if c.items is not None else self.truth(st, c.seq)
            if isinstance(c, DictCell):
                if c.items is not None:
                    return bool(c.items)
                k = c.sym.t.k.fresh("k")
                return z3.Exists([k], z3.Select(c.sym.t.has(c.sym.e), k))
            if isinstance(c, SetCell):
                if c.items is not None:
                    return bool(c.items)
                return c.sym.e != z3.K(c.sym.t.t.sort(), z3.BoolVal(False))
            if isinstance(c, ObjCell):
                if hasattr(c.cls, "__bool__") or hasattr(c.cls, "__len__"):
                    raise Unsupported(f"truth of {c.cls}")
                return True
        if isinstance(v, (Fn, BM)):
            return True
        raise Unsupported(f"truth of {v}")

    def eq(self, st, a, b):
        """z3 Bool / bool for a == b."""
        if isinstance(a, C) and isinstance(b, C):
            return a.v == b.v
        if isinstance(a, C) and a.v is None:
            return self._eq_none(b)
        if isinstance(b, C) and b.v is None:
            return self._eq_none(a)
        if isinstance(a, Tup) and isinstance(b, C) and isinstance(b.v, tuple):
            b = Tup([C(x) for x in b.v])
        if isinstance(b, Tup) and isinstance(a, C) and isinstance(a.v, tuple):
            a = Tup([C(x) for x in a.v])
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            rs = [B(self.eq(st, x, y)) for x, y in zip(a.items, b.items)]
            return z3.simplify(_and(rs)) if rs else True
        if isinstance(a, S) and isinstance(b, S):
            if a.t == b.t:
                return a.e == b.e
            if {a.t, b.t} <= {TInt, TReal, TBool}:
                return self.embed(st, a, TReal) == self.embed(st, b, TReal)
            if isinstance(a.t, TOpt) and a.t.t == b.t:
                return a.e == a.t.some(b.e)
            if isinstance(b.t, TOpt) and b.t.t == a.t:
                return b.e == b.t.some(a.e)
            if isinstance(a.t, TU) or isinstance(b.t, TU):
                raise Unsupported(f"eq of {a.t} and {b.t}")
            return False
        if isinstance(b, S) and isinstance(a, C):
            a, b = b, a
        if isinstance(a, S) and isinstance(b, C):
            if isinstance(a.t, TEnum):
                try:
                    return a.e == lift(b.v, a.t)
                except Unsupported:
                    return False
            if a.t == TStr and isinstance(b.v, str):
                return a.e == lift(b.v, TStr)
            if a.t in (TInt, TReal, TBool) and isinstance(b.v, (int, float)):
                return self.embed(st, a, TReal) == self.embed(st, b, TReal) if (a.t == TReal or isinstance(b.v, float)) else self.embed(st, a, TInt) == z3.IntVal(int(b.v))
            if isinstance(a.t, TU):
                raise Unsupported(f"eq of opaque and {b}")
            return False
        ta, tb = self.shape_ty(st, a), self.shape_ty(st, b)
        if isinstance(a, L) and isinstance(b, L) and a.lid == b.lid:
            return True
        if ta is not None and tb is not None and isinstance(ta, (TSeq, TBag, TSet, TMap, TRec)):
            if ta == tb and not isinstance(ta, (TBag, TMap)):
                return self.embed(st, a, ta) == self.embed(st, b, ta)
            if type(ta) is not type(tb):
                return False
        if isinstance(a, L) and isinstance(st.heap[a.lid], ListCell) and st.heap[a.lid].items == []:
            return z3.Not(B(self.truth(st, b)))
        if isinstance(b, L) and isinstance(st.heap[b.lid], ListCell) and st.heap[b.lid].items == []:
            return z3.Not(B(self.truth(st, a)))
        if isinstance(a, L) and isinstance(b, L) and isinstance(st.heap[a.lid], ListCell) and isinstance(st.heap[b.lid], ListCell):
            ia, ib = st.heap[a.lid].items, st.heap[b.lid].items
            if ia is not None and ib is not None:
                if len(ia) != len(ib):
                    return False
                return z3.simplify(_and([B(self.eq(st, x, y)) for x, y in zip(ia, ib)])) if ia else True
        raise Unsupported(f"eq of {a} and {b}")

    def _eq_none(self, v):
        if isinstance(v, C):
            return v.v is None
        if isinstance(v, S) and isinstance(v.t, TOpt):
            return v.t.is_none(v.e)
        return False

    def identical(self, st, a, b):
        if isinstance(a, C) and isinstance(b, C):
            return a.v is b.v or (isinstance(a.v, (int, str)) and type(a.v) is type(b.v) and a.v == b.v)
        if (isinstance(a, C) and a.v is None) or (isinstance(b, C) and b.v is None):
            return self.eq(st, a, b)
        if isinstance(a, L) and isinstance(b, L):
            return a.lid == b.lid
        if isinstance(a, S) and isinstance(b, S) and a.t == b.t and isinstance(a.t, (TRef, TEnum, TBool)):
            return a.e == b.e
        if isinstance(a, S) and a.t == TBool and isinstance(b, C):
            return (a.e == lift(b.v, TBool)) if isinstance(b.v, bool) else False
        if isinstance(b, S) and b.t == TBool and isinstance(a, C):
            return self.identical(st, b, a)
        if isinstance(a, S) and isinstance(a.t, TEnum) and isinstance(b, C):
            return self.eq(st, a, b)
        if isinstance(b, S) and isinstance(b.t, TEnum) and isinstance(a, C):
            return self.eq(st, a, b)
        if isinstance(a, C) and not isinstance(b, C) and not isinstance(b, S):
            return False
        if isinstance(b, C) and not isinstance(a, C) and not isinstance(a, S):
            return False
        if isinstance(a, C) and isinstance(a.v, bool) or isinstance(b, C) and isinstance(b.v, bool):
            return False
        raise Unsupported(f"identity of {a} and {b}")

    # -------------------------------------------------------- bag lists
    def bag_append(self, st, t, l, x):
        self.use_bag(t)
        ln, at, bag, *_ = t.fns()
        r = t.fresh("app")
        j = z3.Int("j")
        st.assume(
            ln(r) == ln(l) + 1,
            at(r, ln(l)) == x,
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(l)), at(r, j) == at(l, j)), patterns=[at(r, j)]),
            bag(r) == z3.Store(bag(l), x, z3.Select(bag(l), x) + 1),
        )
        return r

    def bag_concat(self, st, t, l, m):
        self.use_bag(t)
        ln, at, bag, *_ = t.fns()
        r = t.fresh("cat")
        l0, m0, l, m = l, m, t.fresh("left"), t.fresh("right")  # names, as patterns take no conditionals
        st.assume(l == l0, m == m0)
        j, e = z3.Int("j"), z3.Const("e", t.t.sort())
        st.assume(
            ln(r) == ln(l) + ln(m),
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(r)), at(r, j) == z3.If(j < ln(l), at(l, j), at(m, j - ln(l)))), patterns=[at(r, j)]),
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(m)), at(r, ln(l) + j) == at(m, j)), patterns=[at(m, j)]),
            z3.ForAll([e], z3.Select(bag(r), e) == z3.Select(bag(l), e) + z3.Select(bag(m), e), patterns=[z3.Select(bag(r), e)]),
        )
        return r

    # -------------------------------------------------------- list access
    def list_get(self, st, v):
        """-> ('items', [...]) or ('seq', S)"""
        if isinstance(v, Tup):
            return "items", v.items
        if isinstance(v, C) and isinstance(v.v, (tuple, list, frozenset, set)):
            return "items", [C(x) for x in v.v]
        if isinstance(v, FL):
            t, arr = st.fields[(v.cname, v.field)]
            if isinstance(t, TBag):
                self.use_bag(t)
            return "seq", S(t, z3.Select(arr, v.ref))
        if isinstance(v, S) and isinstance(v.t, (TSeq, TBag)):
            if isinstance(v.t, TBag):
                self.use_bag(v.t)
            return "seq", v
        if isinstance(v, L) and isinstance(st.heap[v.lid], ListCell):
            c = st.heap[v.lid]
            if c.items is not None:
                return "items", c.items
            if isinstance(c.seq.t, TBag):
                self.use_bag(c.seq.t)
            return "seq", c.seq
        return None, None

    def list_set(self, st, v, items=None, seq=None):
        if isinstance(v, FL):
            t, arr = st.fields[(v.cname, v.field)]
            if seq is None:
                seq = S(t, self.embed(st, st.alloc(ListCell(items=items)), t))
            st.fields[(v.cname, v.field)] = (t, z3.Store(arr, v.ref, seq.e))
            return
        if isinstance(v, L) and isinstance(st.heap[v.lid], ListCell):
            st.heap[v.lid] = ListCell(items=items, seq=seq)
            return
        raise Unsupported(f"list update of {v}")

    def seq_len(self, s):
        return s.t.fns()[0](s.e) if isinstance(s.t, TBag) else z3.Length(s.e)

    def seq_at(self, st, s, i):
        i = B(i) if isinstance(i, bool) else i
        return self.wrap(st, s.t.fns()[1](s.e, i) if isinstance(s.t, TBag) else s.e[i], s.t.t)

    # ------------------------------------------------------ iteration
    def iterate(self, st, v):
        """-> [(st, list of V | SymIter | Raised)]"""
        k, x = self.list_get(st, v)
        if k == "items":
            return [(st, list(x))]
        if k == "seq":
            s = x
            lv = v if isinstance(v, (FL, L)) else None
            return [(st, SymIter(self.seq_len(s), lambda st_, i, s=s: self.seq_at(st_, s, i), base=s, lv=lv, bag=s if isinstance(s.t, TBag) else None))]
        if isinstance(v, C):
            if isinstance(v.v, (str, range, dict)):
                return [(st, [C(x) for x in v.v])]
            if isinstance(v.v, type) and issubclass(v.v, enum.Enum):
                return [(st, [C(x) for x in v.v])]
        if isinstance(v, S) and v.t == TStr:
            return [(st, SymIter(z3.Length(v.e), lambda st_, i, v=v: self.wrap(st_, z3.SubString(v.e, i, 1), TStr), base=v))]
        if isinstance(v, Lazy):
            return self.iterate_lazy(st, v)
        if isinstance(v, L):
            c = st.heap[v.lid]
            if isinstance(c, DictCell):
                if c.items is not None:
                    return [(st, [C(k_) for k_ in c.items])]
                return self.iterate_lazy(st, Lazy("keys", d=v))
            if isinstance(c, SetCell):
                if c.items is not None:
                    if len(c.items) <= 1:
                        return [(st, list(c.items))]
                    t = self.shape_ty(st, v)
                    sym = S(t, self.embed(st, v, t))
                else:
                    sym = c.sym
                it = self.enum_set(st, sym.t.t, sym.e)
                it.lv = None
                return [(st, it)]
        raise Unsupported(f"iteration over {v}")

    def enum_set(self, st, kt, arr):
        """An arbitrary duplicate-free enumeration of the (finite) set arr."""
        t = TBag(kt)
        self.use_bag(t)
        ln, at, bag, ix, *_ = t.fns()
        l = t.fresh("enum")
        e = kt.fresh("e")
        if has_ite(arr):  # not usable in a pattern: name it
            arr0, arr = arr, z3.Const(fresh_name("members"), arr.sort())
            st.assume(arr == arr0, z3.ForAll([e], z3.Select(arr, e) == z3.Select(arr0, e), patterns=[z3.Select(arr, e)]))
        st.assume(
            z3.ForAll([e], z3.Select(bag(l), e) == z3.If(z3.Select(arr, e), z3.IntVal(1), z3.IntVal(0)), patterns=[z3.Select(bag(l), e)]),
            z3.ForAll([e], z3.Implies(z3.Select(arr, e), z3.Select(bag(l), e) == 1), patterns=[z3.Select(arr, e)]) if not z3.is_const(arr) or arr.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.BoolVal(True),
        )
        i, j = z3.Ints("i j")
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln(l)), at(l, i) != at(l, j)), patterns=[z3.MultiPattern(at(l, i), at(l, j))]))
        s = S(t, l)
        s.enum_of = arr
        h = getattr(self.contract, "on_enum", None)
        if h is not None:
            h(self, st, t, arr, l)
        return SymIter(ln(l), lambda st_, i, s=s: self.seq_at(st_, s, i), base=s, bag=s)

    def iterate_lazy(self, st, v):
        k = v.kind
        if k in ("keys", "values", "items"):
            c = st.heap[v.d.lid]
            if c.items is not None:
                if k == "keys":
                    return [(st, [C(x) for x in c.items])]
                if k == "values":
                    return [(st, list(c.items.values()))]
                return [(st, [Tup([C(a), b]) for a, b in c.items.items()])]
            t = c.sym.t
            it = self.enum_set(st, t.k, t.has(c.sym.e))
            get = t.get(c.sym.e)
            base = it.elem
            if k == "values":
                it.elem = lambda st_, i: self.wrap(st_, z3.Select(get, self.embed(st_, base(st_, i), t.k)), t.v)
            elif k == "items":
                it.elem = lambda st_, i: Tup([base(st_, i), self.wrap(st_, z3.Select(get, self.embed(st_, base(st_, i), t.k)), t.v)])
            it.lv = v.d
            return [(st, it)]
        if k == "enumerate":
            out = []
            for s, it in self.iterate(st, v.it):
                if isinstance(it, Raised):
                    out.append((s, it))
                elif isinstance(it, list):
                    out.append((s, [Tup([self.binop(s, "+", v.start, C(i)), x]) for i, x in enumerate(it)]))
                else:
                    st0 = self.embed(s, v.start, TInt)
                    f = it.elem
                    out.append((s, SymIter(it.length, lambda st_, i, f=f: Tup([self.wrap(st_, st0 + i, TInt), f(st_, i)]), base=it.base, lv=it.lv, bag=it.bag)))
            return out
        if k == "range":
            a, b, step = v.a, v.b, v.step
            if all(isinstance(x, C) for x in (a, b, step)):
                return [(st, [C(x) for x in range(a.v, b.v, step.v)])]
            if not (isinstance(step, C) and step.v in (1, -1)):
                raise Unsupported("symbolic range step")
            ae, be = self.embed(st, a, TInt), self.embed(st, b, TInt)
            ln = (be - ae) if step.v == 1 else (ae - be)
            ln = z3.If(ln > 0, ln, z3.IntVal(0))
            return [(st, SymIter(ln, lambda st_, i: self.wrap(st_, ae + i if step.v == 1 else ae - i, TInt)))]
        if k == "zip":
            its = []
            states = [(st, [])]
            for x in v.its:
                nxt = []
                for s, acc in states:
                    for s2, it in self.iterate(s, x):
                        nxt.append((s2, acc + [it]))
                states = nxt
            out = []
            for s, acc in states:
                if all(isinstance(x, list) for x in acc):
                    out.append((s, [Tup(list(t)) for t in zip(*acc)]))
                elif any(isinstance(x, Raised) for x in acc):
                    out.append((s, [x for x in acc if isinstance(x, Raised)][0]))
                else:
                    acc2 = []
                    for x in acc:
                        if isinstance(x, list):
                            raise Unsupported("zip of concrete and symbolic")
                        acc2.append(x)
                    ln = acc2[0].length
                    for x in acc2[1:]:
                        ln = z3.If(x.length < ln, x.length, ln)
                    out.append((s, SymIter(ln, lambda st_, i, acc2=acc2: Tup([x.elem(st_, i) for x in acc2]))))
            return out
        if k == "reversed":
            out = []
            for s, it in self.iterate(st, v.it):
                if isinstance(it, list):
                    out.append((s, it[::-1]))
                else:
                    out.append((s, SymIter(it.length, lambda st_, i, it=it: it.elem(st_, it.length - 1 - i), lv=it.lv)))
            return out
        if k == "genexp":
            return self.run_comp(st, v.node, v.fr, "list_iter")
        if k == "symiter":
            return [(st, v.it)]
        raise Unsupported(f"iteration over lazy {k}")


from . import exprs as _exprs  # noqa: E402
from . import stmts as _stmts  # noqa: E402
from . import calls as _calls  # noqa: E402

for _m in (_exprs, _stmts, _calls):
    for _k, _v in list(vars(_m).items()):
        if getattr(_v, "_engine_method", False):
            setattr(Engine, _k, _v)
