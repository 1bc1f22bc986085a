"""Statements, loops and invariant inference."""
import ast
import z3
from .values import *
from .engine import Fr, SymIter, LoopCtx, B, _and, _or, assigned_names, Obligation, SRC, is_generator
from .exprs import method, free_consts
from . import solver

DBG = int(__import__("os").environ.get("VERIF_DBG", "0"))


@method
def assign(self, st, tgt, v, fr):
    """[(st, None|Raised)]"""
    if isinstance(tgt, ast.Name):
        f = fr
        if tgt.id in fr.nonlocals:
            f = fr.parent
            while f is not None and tgt.id not in st.frames[f.fid]:
                f = f.parent
        st.frames[f.fid][tgt.id] = v
        return [(st, None)]
    if isinstance(tgt, (ast.Tuple, ast.List)):
        out = []
        for s, it in self.iterate(st, v):
            if isinstance(it, Raised):
                out.append((s, it))
                continue
            if not isinstance(it, list):
                star = any(isinstance(t, ast.Starred) for t in tgt.elts)
                if star:
                    raise Unsupported("starred unpack of symbolic")
                ok, bad = self.fork(s, it.length == len(tgt.elts))
                if bad is not None:
                    out.append((bad, Raised(ValueError, "unpack")))
                if ok is None:
                    continue
                s, it = ok, [it.elem(ok, z3.IntVal(i)) for i in range(len(tgt.elts))]
            stars = [i for i, t in enumerate(tgt.elts) if isinstance(t, ast.Starred)]
            if stars:
                i = stars[0]
                n_after = len(tgt.elts) - i - 1
                if len(it) < len(tgt.elts) - 1:
                    out.append((s, Raised(ValueError, "unpack")))
                    continue
                mid = it[i : len(it) - n_after]
                it = it[:i] + [s.alloc(ListCell(items=mid))] + it[len(it) - n_after :]
                elts = [t.value if isinstance(t, ast.Starred) else t for t in tgt.elts]
            else:
                elts = tgt.elts
                if len(it) != len(elts):
                    out.append((s, Raised(ValueError, "unpack")))
                    continue
            acc = [(s, None)]
            for t, x in zip(elts, it):
                nxt = []
                for s2, r in acc:
                    if isinstance(r, Raised):
                        nxt.append((s2, r))
                    else:
                        nxt += self.assign(s2, t, x, fr)
                acc = nxt
            out += acc
        return out
    if isinstance(tgt, ast.Attribute):
        return self.bind(self.ev(st, tgt.value, fr), lambda s, o: self.setattr_(s, o, tgt.attr, v))
    if isinstance(tgt, ast.Subscript):
        if isinstance(tgt.slice, ast.Slice):
            raise Unsupported("slice assignment")
        return self.bind(self.ev_many(st, [tgt.value, tgt.slice], fr), lambda s, vs: self.setitem(s, vs[0], vs[1], v))
    raise Unsupported(f"assignment target {type(tgt).__name__}")


@method
def block(self, st, stmts, fr):
    """[(st, ctl)], ctl in None | ('return',v) | ('break',) | ('continue',) | ('raise',Raised)"""
    live = [st]
    done = []
    for n in stmts:
        nxt = []
        for s in live:
            went = []
            base = s.copy() if self.merging else None
            for s2, ctl in self.stmt(s, n, fr):
                if ctl is None:
                    went.append(s2)
                else:
                    done.append((s2, ctl))
            nxt += self.merge(base, went, n, fr) if base is not None and len(went) > 1 else went
        live = nxt
        if len(live) + len(done) > 6000:
            raise Unsupported("path explosion")
    return [(s, None) for s in live] + done


@method
def merge(self, base, states, node, fr):
    """Joins states that differ only in what is known about them (a sound
    weakening: of each, the quantifier-free part of what is known is kept)."""
    nodes = node if isinstance(node, list) else [node]
    walk = [x for m in nodes for x in ast.walk(m)]
    here = {x.id for x in walk if isinstance(x, ast.Name)}
    if fr.node is None:
        return states
    fnode = fr.node
    inside = set(map(id, walk))
    loads = {x.id for x in ast.walk(fnode) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside}
    dead = here - loads
    groups = {}
    for s in states:
        for v in dead:
            if v not in base.frames[fr.fid]:
                s.frames[fr.fid].pop(v, None)
        try:
            k = canon(base, s, fr.fid)
        except Unmergeable:
            k = ("alone", id(s))
        groups.setdefault(k, []).append(s)
    out = []
    n0 = len(base.pc)
    for g in groups.values():
        m = g[0]
        if len(g) > 1 and all(s.pc[:n0] == base.pc or all(a is b or z3.eq(a, b) for a, b in zip(s.pc, base.pc)) for s in g):
            rests = [[e for e in s.pc[n0:] if not has_quant(e)] for s in g]
            m.pc = list(base.pc)
            vs = m.frames[fr.fid]
            phi = [v for v in vs if phi_ty(vs[v]) is not None and any(not self.same_value(vs[v], s.frames[fr.fid][v]) for s in g[1:])]
            if phi:
                sel = z3.Int(fresh_name("via"))
                rests = [r + [sel == i] for i, r in enumerate(rests)]
                for v in phi:
                    t = phi_ty(vs[v])
                    es = [self.embed(s, s.frames[fr.fid][v], t) for s in g]
                    e = es[-1]
                    for i in range(len(es) - 2, -1, -1):
                        e = z3.If(sel == i, es[i], e)
                    vs[v] = S(t, e)
            m.assume(_or([_and(r) for r in rests]))
        else:
            out += g
            continue
        out.append(m)
    return out


class Unmergeable(Exception):
    pass


def has_quant(e, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    return z3.is_quantifier(e) or any(has_quant(c, seen) for c in e.children())


def phi_ty(v):
    if isinstance(v, S) and v.t in (TBool, TInt, TReal, TStr):
        return v.t
    if isinstance(v, C):
        return {bool: TBool, int: TInt, str: TStr}.get(type(v.v))
    return None


def canon(base, st, cur=None):
    """A key equal for states that agree on everything but the path condition."""
    ren, out, todo = {}, [], []

    def val(v):
        if isinstance(v, C):
            return ("C", type(v.v).__name__, repr(v.v) if isinstance(v.v, (int, float, str, bytes, bool, type(None))) else id(v.v))
        if isinstance(v, S):
            return ("S", v.t, v.e.get_id())
        if isinstance(v, Tup):
            return ("T",) + tuple(val(x) for x in v.items)
        if isinstance(v, Undef):
            return ("U",)
        if isinstance(v, L):
            if v.lid <= base.nloc:
                return ("L", v.lid)
            if v.lid not in ren:
                ren[v.lid] = len(ren)
                todo.append(v.lid)
            return ("N", ren[v.lid])
        if isinstance(v, BM):
            return ("B", v.name, val(v.recv))
        if isinstance(v, FL):
            return ("F", v.cname, v.field, v.ref.get_id())
        if isinstance(v, Fn) and v.env is not None and v.env.fid in base.frames:
            return ("Fn", id(v.node), v.env.fid)
        if v is None or isinstance(v, (int, str)):
            return ("P", v)
        raise Unmergeable()

    def cell(c):
        if isinstance(c, ObjCell):
            return ("O", id(c.cls)) + tuple((k, val(x)) for k, x in sorted(c.fields.items()))
        if isinstance(c, ListCell):
            return ("l", tuple(map(val, c.items)) if c.items is not None else val(c.seq))
        if isinstance(c, SetCell):
            return ("s", tuple(map(val, c.items)) if c.items is not None else val(c.sym))
        if isinstance(c, DictCell):
            return ("d", tuple((repr(k), val(x)) for k, x in c.items.items()) if c.items is not None else val(c.sym))
        raise Unmergeable()
    for fid in base.frames:
        if fid in st.frames:
            out.append((fid,) + tuple((k, val(v) if fid != cur or phi_ty(v) is None else ("phi", phi_ty(v))) for k, v in sorted(st.frames[fid].items()) if not isinstance(v, Undef)))
    for lid in base.heap:
        out.append((lid,) + cell(st.heap[lid]))
    for k, (t, a) in st.fields.items():
        out.append((k, a.get_id()))
    for k, v in sorted(st.ghost.items()):
        out.append((k, val(v) if isinstance(v, V) else id(v)))
    while todo:
        out.append(cell(st.heap[todo.pop(0)]))
    return tuple(out)


@method
def stmt(self, st, node, fr):
    m = getattr(self, "st_" + type(node).__name__, None)
    if m is None:
        raise Unsupported(f"statement {type(node).__name__} at line {node.lineno}")
    return m(st, node, fr)


def _ctl(rs):
    return [(s, ("raise", v) if isinstance(v, Raised) else None) for s, v in rs]


@method
def st_Expr(self, st, node, fr):
    if isinstance(node.value, ast.Constant):
        return [(st, None)]
    return _ctl(self.ev(st, node.value, fr))


@method
def st_Pass(self, st, node, fr):
    return [(st, None)]


@method
def st_Assign(self, st, node, fr):
    def go(s, v):
        acc = [(s, None)]
        for t in node.targets:
            nxt = []
            for s2, r in acc:
                if isinstance(r, Raised):
                    nxt.append((s2, r))
                else:
                    nxt += self.assign(s2, t, v, fr)
            acc = nxt
        return acc
    return _ctl(self.bind(self.ev(st, node.value, fr), go))


@method
def st_AnnAssign(self, st, node, fr):
    if node.value is None:
        return [(st, None)]
    return _ctl(self.bind(self.ev(st, node.value, fr), lambda s, v: self.assign(s, node.target, v, fr)))


@method
def st_AugAssign(self, st, node, fr):
    import copy
    from .exprs import OPS
    load = copy.copy(node.target)
    load.ctx = ast.Load()

    def go(s, vs):
        cur, x = vs
        op = OPS[type(node.op)]
        # in-place list / set operators
        if isinstance(cur, L) and isinstance(s.heap[cur.lid], ListCell) and op == "+":
            return self.call(s, BM(cur, "extend"), [x], {})
        if isinstance(cur, FL) and op == "+":
            return self.call(s, BM(cur, "extend"), [x], {})
        if isinstance(cur, L) and isinstance(s.heap[cur.lid], SetCell) and op == "|":
            return self.call(s, BM(cur, "update"), [x], {})
        return self.bind(self.binop_r(s, op, cur, x), lambda s2, v: self.assign(s2, node.target, v, fr))
    return _ctl(self.bind(self.ev_many(st, [load, node.value], fr), go))


@method
def st_Return(self, st, node, fr):
    if node.value is None:
        return [(st, ("return", NONE))]
    return [(s, ("raise", v) if isinstance(v, Raised) else ("return", v)) for s, v in self.ev(st, node.value, fr)]


@method
def st_If(self, st, node, fr):
    out = []
    for s, v in self.ev(st, node.test, fr):
        if isinstance(v, Raised):
            out.append((s, ("raise", v)))
            continue
        for s2, t in self.branch(s, v):
            out += self.block(s2, node.body if t else node.orelse, fr)
    return out


@method
def st_Break(self, st, node, fr):
    return [(st, ("break",))]


@method
def st_Continue(self, st, node, fr):
    return [(st, ("continue",))]


@method
def st_FunctionDef(self, st, node, fr):
    def go(s, ds):
        s.frames[fr.fid][node.name] = self.make_fn(s, node, fr, ds)
        return [(s, None)]
    return _ctl(self.bind(self.ev_many(st, node.args.defaults, fr), go))


st_AsyncFunctionDef = st_FunctionDef


@method
def st_AsyncFunctionDef(self, st, node, fr):
    return self.st_FunctionDef(st, node, fr)


@method
def st_Nonlocal(self, st, node, fr):
    fr.nonlocals |= set(node.names)
    return [(st, None)]


@method
def st_Global(self, st, node, fr):
    raise Unsupported("global statement")


@method
def st_Import(self, st, node, fr):
    import importlib
    for a in node.names:
        m = importlib.import_module(a.name)
        st.frames[fr.fid][a.asname or a.name.split(".")[0]] = C(m if a.asname else importlib.import_module(a.name.split(".")[0]))
    return [(st, None)]


@method
def st_ImportFrom(self, st, node, fr):
    import importlib
    base = "." * node.level + (node.module or "")
    m = importlib.import_module(base, package=fr.module.rsplit(".", 1)[0]) if node.level else importlib.import_module(base)
    for a in node.names:
        st.frames[fr.fid][a.asname or a.name] = C(getattr(m, a.name))
    return [(st, None)]


@method
def st_Delete(self, st, node, fr):
    acc = [(st, None)]
    for t in node.targets:
        nxt = []
        for s, r in acc:
            if isinstance(r, Raised):
                nxt.append((s, r))
            elif isinstance(t, ast.Name):
                s.frames[fr.fid].pop(t.id, None)
                nxt.append((s, None))
            elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                nxt += self.bind(self.ev_many(s, [t.value, t.slice], fr), lambda s2, vs: self.delitem(s2, vs[0], vs[1]))
            else:
                raise Unsupported("del target")
        acc = nxt
    return _ctl(acc)


@method
def st_Assert(self, st, node, fr):
    out = []
    for s, v in self.ev(st, node.test, fr):
        if isinstance(v, Raised):
            out.append((s, ("raise", v)))
            continue
        for s2, t in self.branch(s, v):
            out.append((s2, None if t else ("raise", Raised(AssertionError, f"line {node.lineno}"))))
    return out


@method
def st_Raise(self, st, node, fr):
    if node.exc is None:
        cur = st.ghost.get("$exc")
        return [(st, ("raise", cur[-1] if cur else Raised(RuntimeError, "reraise")))]
    exc = node.exc
    if isinstance(exc, ast.Call):
        clsv = self.ev(st, exc.func, fr)
        s, c = clsv[0]
        try:
            rs = self.ev_many(s, exc.args, fr)
        except Unsupported:
            rs = [(s, [])]
        return [(s2, ("raise", vs if isinstance(vs, Raised) else Raised(c.v, f"line {node.lineno}", args=vs))) for s2, vs in rs]
    out = []
    for s, v in self.ev(st, exc, fr):
        if isinstance(v, Raised):
            out.append((s, ("raise", v)))
        elif isinstance(v, Lazy) and v.kind == "exc":
            out.append((s, ("raise", v.exc)))
        elif isinstance(v, C) and isinstance(v.v, type):
            out.append((s, ("raise", Raised(v.v, f"line {node.lineno}"))))
        else:
            raise Unsupported("raise of value")
    return out


@method
def st_Try(self, st, node, fr):
    out = []
    base = st.copy() if self.merging else None
    res = self.block(st, node.body, fr)
    if self.merging:
        groups = {}
        for s, ctl in res:
            if ctl is not None and ctl[0] == "raise" and not ctl[1].args and not getattr(ctl[1], "value", None):
                groups.setdefault((ctl[1].cls, ctl[1].msg), []).append((s, ctl))
        for g in groups.values():
            if len(g) > 1:
                keep = self.merge(base, [s for s, _ in g], node.body, fr)
                res = [x for x in res if not any(x[0] is s for s, _ in g)] + [(s, g[0][1]) for s in keep]
    for s, ctl in res:
        if ctl is None:
            if node.orelse:
                out += self.block(s, node.orelse, fr)
            else:
                out.append((s, None))
        elif ctl[0] == "raise" and node.handlers:
            out += self.handle(s, ctl[1], node.handlers, fr)
        else:
            out.append((s, ctl))
    if node.finalbody:
        res = []
        for s, ctl in out:
            for s2, c2 in self.block(s, node.finalbody, fr):
                res.append((s2, c2 if c2 is not None else ctl))
        out = res
    return out


@method
def handle(self, st, exc, handlers, fr):
    for h in handlers:
        if h.type is None:
            classes = (BaseException,)
        else:
            v = self.ev(st, h.type, fr)[0][1]
            classes = v.v if isinstance(v, C) and isinstance(v.v, tuple) else (v.v,) if isinstance(v, C) else tuple(x.v for x in v.items)
        if any(issubclass(exc.cls, c) for c in classes):
            if h.name:
                st.frames[fr.fid][h.name] = Lazy("exc", exc=exc)
            st.ghost["$exc"] = list(st.ghost.get("$exc", [])) + [exc]
            res = self.block(st, h.body, fr)
            for s, _ in res:
                if s.ghost.get("$exc"):
                    s.ghost["$exc"] = s.ghost["$exc"][:-1]
            return res
        if any(issubclass(c, exc.cls) and c is not exc.cls for c in classes):
            # the modelled exception class is coarser than the handler's
            raise Unsupported("exception class too coarse")
    return [(st, ("raise", exc))]


@method
def st_With(self, st, node, fr):
    acc = [(st, [])]
    for it in node.items:
        nxt = []
        for s, ms in acc:
            if isinstance(ms, Raised):
                nxt.append((s, ms))
                continue
            for s2, m in self.ev(s, it.context_expr, fr):
                if isinstance(m, Raised):
                    nxt.append((s2, m))
                    continue
                for s3, v in self.enter(s2, m):
                    if isinstance(v, Raised):
                        nxt.append((s3, v))
                        continue
                    if it.optional_vars is not None:
                        for s4, r in self.assign(s3, it.optional_vars, v, fr):
                            nxt.append((s4, r if isinstance(r, Raised) else ms + [m]))
                    else:
                        nxt.append((s3, ms + [m]))
        acc = nxt
    out = []
    for s, ms in acc:
        if isinstance(ms, Raised):
            out.append((s, ("raise", ms)))
            continue
        for s2, ctl in self.block(s, node.body, fr):
            fin = [(s2, None)]
            for m in reversed(ms):
                f2 = []
                for s3, r in fin:
                    f2 += self.exit(s3, m)
                fin = f2
            out += [(s3, ctl) for s3, _ in fin]
    return out


@method
def st_AsyncWith(self, st, node, fr):
    return self.st_With(st, node, fr)


@method
def enter(self, st, m):
    h = getattr(self.contract, "with_hook", None)
    if h is not None:
        r = h(self, st, m)
        if r is not None:
            return r
    return [(st, m)]


@method
def exit(self, st, m):
    h = getattr(self.contract, "exit_hook", None)
    if h is not None:
        r = h(self, st, m)
        if r is not None:
            return r
    return [(st, None)]


# ------------------------------------------------------------------ loops
@method
def st_While(self, st, node, fr):
    # unroll while the condition is concretely decided
    live, out = [(st, 0)], []
    always = isinstance(node.test, ast.Constant) and node.test.value
    if always:
        return self.sym_loop(st, node, fr, None)
    while live:
        s, n = live.pop()
        probe = self.ev(s.copy(), node.test, fr)
        conc = len(probe) == 1 and not isinstance(probe[0][1], Raised) and isinstance(self.truth(probe[0][0], probe[0][1]), bool)
        if not conc or n > self.MAX_UNROLL:
            out += self.sym_loop(s, node, fr, None)
            continue
        s2, v = probe[0]
        if not self.truth(s2, v):
            out += self.block(s2, node.orelse, fr)
            continue
        if n >= 1 and self._grew_symbolic(st, s2):
            out += self.sym_loop(s, node, fr, None)
            continue
        # a first concrete iteration is only taken when it decides the loop
        if not self._worth_unrolling(s2, node, fr):
            out += self.sym_loop(s, node, fr, None)
            continue
        for s3, ctl in self.block(s2, node.body, fr):
            if ctl is None or ctl[0] == "continue":
                live.append((s3, n + 1))
            elif ctl[0] == "break":
                out.append((s3, None))
            else:
                out.append((s3, ctl))
    return out


@method
def _grew_symbolic(self, st, s2):
    return False


@method
def _worth_unrolling(self, s, node, fr):
    """Unroll only if one more iteration leaves the test concretely decided
    on every path (bounded loops over concrete data)."""
    h = getattr(self.contract, "unroll", None)
    if h is not None and not h:
        return False
    self.silent += 1
    try:
        seen = [(s.copy(), 0)]
        total = 0
        while seen:
            x, n = seen.pop()
            total += 1
            if total > 60:
                return n > 0 and False
            for s3, ctl in self.block(x, node.body, fr):
                if ctl is not None and ctl[0] != "continue":
                    continue
                pr = self.ev(s3, node.test, fr)
                if not all(isinstance(self.truth(a, b), bool) for a, b in pr if not isinstance(b, Raised)):
                    return False
                for a, b in pr:
                    if not isinstance(b, Raised) and self.truth(a, b):
                        seen.append((a, n + 1))
        return True
    finally:
        self.silent -= 1


@method
def st_For(self, st, node, fr):
    out = []
    for s, src in self.ev(st, node.iter, fr):
        if isinstance(src, Raised):
            out.append((s, ("raise", src)))
            continue
        for s2, it in self.iterate(s, src):
            if isinstance(it, Raised):
                out.append((s2, ("raise", it)))
            elif isinstance(it, list):
                out += self.for_concrete(s2, node, it, fr)
            else:
                out += self.sym_loop(s2, node, fr, it)
    return out


@method
def for_concrete(self, st, node, items, fr):
    live, out = [st], []
    for x in items:
        nxt = []
        for s in live:
            for s1, r in self.assign(s, node.target, x, fr):
                if isinstance(r, Raised):
                    out.append((s1, ("raise", r)))
                    continue
                for s2, ctl in self.block(s1, node.body, fr):
                    if ctl is None or ctl[0] == "continue":
                        nxt.append(s2)
                    elif ctl[0] == "break":
                        out.append((s2, None))
                    else:
                        out.append((s2, ctl))
        live = nxt
    for s in live:
        out += self.block(s, node.orelse, fr)
    return out


# --- shapes for havoc -------------------------------------------------
@method
def refcount(self, st, lid):
    n = 0

    def look(v):
        nonlocal n
        if isinstance(v, L):
            n += v.lid == lid
        elif isinstance(v, Tup):
            for x in v.items:
                look(x)
        elif isinstance(v, BM):
            look(v.recv)
        elif isinstance(v, Fn):
            for x in v.defaults:
                look(x)
    for f in st.frames.values():
        for v in f.values():
            look(v)
    for c in st.heap.values():
        if isinstance(c, ListCell) and c.items is not None or isinstance(c, SetCell) and c.items is not None:
            for x in c.items:
                look(x)
        elif isinstance(c, DictCell) and c.items is not None:
            for x in c.items.values():
                look(x)
        elif isinstance(c, ObjCell):
            for x in c.fields.values():
                look(x)
    return n


@method
def shape(self, st, v):
    if isinstance(v, Undef):
        return ("undef",)
    if isinstance(v, L):
        c = st.heap[v.lid]
        if isinstance(c, ListCell):
            return ("list", self.list_ty(st, c))
        if isinstance(c, SetCell):
            return ("set", self.shape_ty(st, v))
        if isinstance(c, DictCell):
            t = self.shape_ty(st, v)
            if c.items is not None and not isinstance(t, TRec):
                return ("dict", self.dict_ty(st, c))
            return ("ty", t) if isinstance(t, TRec) else ("dict", t)
        return ("obj", v.lid)
    if isinstance(v, Tup):
        return ("tup", tuple(self.shape(st, x) for x in v.items))
    if isinstance(v, C):
        if v.v is None:
            return ("none",)
        t = self.shape_ty(st, v)
        return ("ty", t) if t is not None else ("const", v.v)
    if isinstance(v, S):
        return ("ty", v.t)
    if isinstance(v, FL):
        return ("fl", v)
    return ("fixed", v)


@method
def list_ty(self, st, c):
    if c.seq is not None:
        return c.seq.t
    if not c.items:
        return None
    t = self.join_tys([self.shape_ty(st, x) for x in c.items], any(isinstance(x, C) and x.v is None for x in c.items))
    if t is None:
        raise Unsupported(f"element type of {c}")
    return self.seq_ty(t)


@method
def dict_ty(self, st, c):
    if c.sym is not None:
        return c.sym.t
    if not c.items:
        return None
    kt = self.join_tys([self.shape_ty(st, C(k)) for k in c.items])
    vt = self.join_tys([self.shape_ty(st, x) for x in c.items.values()])
    return TMap(kt, vt)


@method
def join_shape(self, a, b):
    if a == b:
        return a
    if a[0] == "undef":
        return b
    if b[0] == "undef":
        return a
    if a[0] == "none" and b[0] == "ty":
        return ("ty", b[1] if isinstance(b[1], TOpt) else TOpt(b[1]))
    if b[0] == "none":
        return self.join_shape(b, a)
    if a[0] == "ty" and b[0] == "ty":
        return ("ty", self.join_tys([a[1], b[1]]))
    if a[0] == b[0] and a[0] in ("list", "set", "dict"):
        if a[1] is None:
            return b
        if b[1] is None:
            return a
        x, y = a[1], b[1]
        if x == y:
            return a
        if type(x) is type(y) and not isinstance(x, TMap):
            return (a[0], type(x)(self.join_tys([x.t, y.t])))
        if {type(x), type(y)} == {TSeq, TBag} and x.t == y.t:
            return (a[0], x if isinstance(x, TBag) else y)
    if a[0] == "none" and b[0] in ("list", "obj", "set", "dict") or b[0] == "none" and a[0] in ("list", "obj", "set", "dict"):
        raise Unsupported("optional mutable object in a loop")
    if a[0] == "tup" and b[0] == "tup" and len(a[1]) == len(b[1]):
        return ("tup", tuple(self.join_shape(x, y) for x, y in zip(a[1], b[1])))
    if a[0] == "tup" and b[0] == "ty" or a[0] == "ty" and b[0] == "tup":
        ty = b[1] if b[0] == "ty" else a[1]
        tp = a if a[0] == "tup" else b
        if isinstance(ty, TTup) and len(ty.ts) == len(tp[1]):
            return self.join_shape(tp, ("tup", tuple(("ty", t) for t in ty.ts)))
    raise Unsupported(f"loop-carried value changes shape: {a} / {b}")


@method
def fresh_shape(self, st, sh, name):
    k = sh[0]
    if k == "undef":
        return UNDEF
    if k == "none":
        return NONE
    if k == "ty":
        return self.wrap(st, sh[1].fresh(name), sh[1]) if not isinstance(sh[1], TOpt) else S(sh[1], sh[1].fresh(name))
    if k == "tup":
        return Tup([self.fresh_shape(st, x, name) for x in sh[1]])
    if k == "list":
        if sh[1] is None:
            return st.alloc(ListCell(items=[]))
        if isinstance(sh[1], TBag):
            self.use_bag(sh[1])
        return st.alloc(ListCell(seq=S(sh[1], sh[1].fresh(name))))
    if k == "set":
        if sh[1] is None:
            return st.alloc(SetCell(items=[]))
        return st.alloc(SetCell(sym=S(sh[1], sh[1].fresh(name))))
    if k == "dict":
        if sh[1] is None:
            return st.alloc(DictCell(items={}))
        return st.alloc(DictCell(sym=S(sh[1], sh[1].fresh(name))))
    raise Unsupported(f"havoc of {sh}")


@method
def fresh_cell(self, st, cell, sh, name):
    v = self.fresh_shape(st, sh, name)
    c = st.heap.pop(v.lid)
    return c


@method
def diff(self, entry, st):
    """Locations existing at entry whose content differs in st."""
    d = set()
    for fid, vs in entry.frames.items():
        ws = st.frames.get(fid, {})
        for k in set(vs) | set(ws):
            a, b = vs.get(k, UNDEF), ws.get(k, UNDEF)
            if a is not b and not self.same_value(a, b):
                d.add(("var", fid, k))
    for lid, c in entry.heap.items():
        c2 = st.heap.get(lid)
        if c2 is not c:
            if isinstance(c, ObjCell) and isinstance(c2, ObjCell):
                for f in set(c.fields) | set(c2.fields):
                    a, b = c.fields.get(f, UNDEF), c2.fields.get(f, UNDEF)
                    if a is not b and not self.same_value(a, b):
                        d.add(("attr", lid, f))
            else:
                d.add(("cell", lid))
    for k, (t, arr) in entry.fields.items():
        if st.fields[k][1] is not arr:
            d.add(("field",) + k)
    for k in set(entry.ghost) | set(st.ghost):
        if k.startswith("$exc"):
            continue
        a, b = entry.ghost.get(k), st.ghost.get(k)
        if a is not b and not (isinstance(a, V) and isinstance(b, V) and self.same_value(a, b)):
            d.add(("ghost", k))
    return d


@method
def same_value(self, a, b):
    if isinstance(a, C) and isinstance(b, C):
        return a.v is b.v or (type(a.v) is type(b.v) and isinstance(a.v, (int, str, bool, float, tuple)) and a.v == b.v)
    if isinstance(a, S) and isinstance(b, S):
        return a.t == b.t and z3.eq(a.e, b.e)
    if isinstance(a, L) and isinstance(b, L):
        return a.lid == b.lid
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(self.same_value(x, y) for x, y in zip(a.items, b.items))
    return False


@method
def loc_value(self, st, loc):
    if loc[0] == "var":
        return st.frames.get(loc[1], {}).get(loc[2], UNDEF)
    if loc[0] == "attr":
        return st.heap[loc[1]].fields.get(loc[2], UNDEF)
    if loc[0] == "cell":
        return L(loc[1])
    if loc[0] == "ghost":
        return st.ghost.get(loc[1], UNDEF)
    return None


@method
def havoc(self, st, mods, shapes):
    for loc in sorted(mods, key=str):
        nm = "_".join(str(x) for x in loc[1:])
        if loc[0] == "field":
            t, arr = st.fields[loc[1:]]
            st.fields[loc[1:]] = (t, z3.Const(fresh_name("H_" + nm), arr.sort()))
            continue
        sh = shapes[loc]
        if loc[0] == "var":
            st.frames[loc[1]][loc[2]] = self.fresh_shape(st, sh, nm)
        elif loc[0] == "attr":
            c = st.heap[loc[1]]
            v = self.fresh_shape(st, sh, nm)
            c = st.heap[loc[1]]
            st.heap[loc[1]] = ObjCell(c.cls, {**c.fields, loc[2]: v})
        elif loc[0] == "cell":
            v = self.fresh_shape(st, sh, nm)
            st.heap[loc[1]] = st.heap[v.lid]
        elif loc[0] == "ghost":
            v = self.fresh_shape(st, sh, nm)
            st.ghost[loc[1]] = v
    return st


@method
def sym_loop(self, st, node, fr, it):
    """Loop with a symbolic number of iterations, cut by invariants."""
    isfor = it is not None
    entry = st
    where = f"{fr.qual}:loop"
    self.loopn = getattr(self, "loopn", 0)

    def run_body(head, idx):
        """-> (backs, exits): exits = [(st, ctl)] leaving the loop."""
        backs, exits = [], []
        if isfor:
            s = head.copy().assume(0 <= idx, idx < it.length)
            if it.bag is not None:
                l, (_, at, bag, _, pb, _, _) = it.bag.e, it.bag.t.fns()
                x = at(l, idx)
                s.assume(
                    pb(l, idx + 1) == z3.Store(pb(l, idx), x, z3.Select(pb(l, idx), x) + 1),
                    z3.Select(pb(l, idx), x) >= 0,
                    z3.Select(pb(l, idx), x) < z3.Select(bag(l), x),
                )
            if not self.feasible(s):
                return [], []
            pre = [(s, None)]
            res = []
            for s1, x in self.force(s, it.elem(s, idx)):
                for s2, r in self.assign(s1, node.target, x, fr):
                    if isinstance(r, Raised):
                        exits.append((s2, ("raise", r)))
                    else:
                        res += self.block(s2, node.body, fr)
        else:
            res = []
            for s, v in self.ev(head.copy(), node.test, fr):
                if isinstance(v, Raised):
                    exits.append((s, ("raise", v)))
                    continue
                for s2, t in self.branch(s, v):
                    if t:
                        res += self.block(s2, node.body, fr)
        for s, ctl in res:
            if ctl is None or ctl[0] == "continue":
                backs.append(s)
            elif ctl[0] == "break":
                exits.append((s, None))
            else:
                exits.append((s, ctl))
        return backs, exits

    # --- discovery of modified locations and their shapes
    mods, shapes = set(), {}
    self.silent += 1
    self.discover += 1
    saved_cov = self.loopinfo
    self.loopinfo = []
    try:
        for k in assigned_names(node.body + ([ast.Assign(targets=[node.target], value=ast.Constant(value=0))] if isfor else [])):
            mods.add(("var", fr.fid, k))
        for loc in mods:
            shapes[loc] = self.shape(entry, self.loc_value(entry, loc))
        first = True
        for _round in range(8):
            if first:
                head = entry.copy()
            else:
                head = self.havoc(entry.copy(), mods, shapes)
            idx = z3.IntVal(0) if first else z3.Int(fresh_name("idx"))
            backs, exits = run_body(head, idx)
            changed = first
            first = False
            for s in backs:
                for loc in self.diff(head, s):
                    if loc[0] in ("cell", "attr") and loc[1] not in entry.heap:
                        continue  # allocated for a loop variable, which is in mods itself
                    if loc not in mods:
                        mods.add(loc)
                        changed = True
                        if loc[0] != "field":
                            shapes[loc] = self.shape(entry, self.loc_value(entry, loc))
            for s in backs:
                for loc in mods:
                    if loc[0] == "field":
                        continue
                    v = self.loc_value(s, loc)
                    if loc[0] in ("var", "attr") and isinstance(v, L):
                        v0 = self.loc_value(head, loc)
                        if not (isinstance(v0, L) and v0.lid == v.lid) and not isinstance(s.heap[v.lid], ObjCell) and self.refcount(s, v.lid) > 1 and shapes[loc][0] != "undef":
                            # an alias of a live mutable object flows around the loop
                            if not (isinstance(s.heap[v.lid], DictCell) and isinstance(self.shape(s, v)[1], TRec)):
                                raise Unsupported(f"aliased mutable loop variable {loc}")
                    if loc[0] == "var" and shapes[loc][0] == "undef" and self.loc_value(entry, loc) is UNDEF:
                        continue
                    sh = self.join_shape(shapes[loc], self.shape(s, v))
                    if sh != shapes[loc]:
                        shapes[loc] = sh
                        changed = True
            if not changed:
                break
        else:
            raise Unsupported("loop shapes do not stabilise")
    finally:
        self.silent -= 1
        self.discover -= 1
        self.loopinfo = saved_cov
    # --- invariants (Houdini)
    idx = z3.Int(fresh_name("idx")) if isfor else None

    def cands(s, ix):
        lc = LoopCtx(self, s, entry, fr, ix, it, node)
        out = {}
        gens = [self.generic_candidates]
        h = getattr(self.contract, "candidates", None)
        if h is not None:
            gens.append(lambda l: h(self, l))
        for g in gens:
            for nm, f in g(lc):
                if f is not None:
                    out[nm] = f if not isinstance(f, bool) else z3.BoolVal(f)
        return out
    if isfor and it.bag is not None:
        entry = entry.copy().assume(it.bag.t.fns()[4](it.bag.e, z3.IntVal(0)) == z3.K(it.bag.t.t.sort(), z3.IntVal(0)))
    if self.discover:
        # only the modified locations matter here: no invariants needed
        base_head = self.havoc(entry.copy(), mods, shapes)
        if isfor:
            base_head.assume(0 <= idx, idx <= it.length)
        backs, exits = run_body(base_head, idx)
        return self._loop_exits(exits, base_head, node, fr, it, idx)
    entry_c = cands(entry, z3.IntVal(0) if isfor else None)
    base_head = self.havoc(entry.copy(), mods, shapes)
    if isfor:
        base_head.assume(0 <= idx, idx <= it.length)
    names = [n for n in cands(base_head, idx) if n in entry_c]
    hkey = (id(node), fr.qual)
    if self.hmode and hkey in self.hseen:
        names = [n for n in names if n in self.hseen[hkey]]
    # keep those that hold on entry
    tmo = 1.5 if self.effort == 0 else 4.0
    keep = []
    need = getattr(self.contract, "need_invariants", ())
    for n in names:
        v = solver.prove(self.axioms, entry.pc, entry_c[n], timeout_s=tmo, use_cvc5=False, quick=True)
        if v.status == "proved":
            keep.append(n)
    for _round in range(30):
        head = base_head.copy()
        hc = cands(head, idx)
        keep = [n for n in keep if n in hc]
        head.assume(*[hc[n] for n in keep])
        if getattr(self.contract, "lemmas_early", False):
            head.assume(*self.contract.lemmas(self, LoopCtx(self, head, entry, fr, idx, it, node)))
        self.silent += 1
        self.hmode += 1 if _round else 0
        try:
            backs, exits = run_body(head, idx)
        finally:
            self.silent -= 1
            self.hmode -= 1 if _round else 0
        dropped = []
        for s in backs:
            bc = cands(s, idx + 1 if isfor else None)
            rest = [n for n in keep if n not in dropped]
            for n in rest:
                if n not in bc:
                    dropped.append(n)
            rest = [n for n in keep if n not in dropped]
            if not rest:
                continue
            allv = solver.prove(self.axioms, s.pc, _and([bc[n] for n in rest]), timeout_s=tmo, use_cvc5=False, quick=True) if not solver.EXCLUSIVE else None
            if allv is not None and allv.status == "proved":
                continue
            for n in rest:
                v = solver.prove(self.axioms, s.pc, bc[n], timeout_s=tmo, use_cvc5=self.effort > 0, quick=self.effort == 0 or bool(self.silent))
                if v.status != "proved":
                    if DBG:
                        print("drop", n, v.status, v.reason, round(v.secs, 2), "path", [str(z3.simplify(x))[:100] for x in s.pc[len(head.pc) - len(keep):]] if DBG > 1 else "", flush=True)
                    dropped.append(n)
        if not dropped:
            break
        keep = [n for n in keep if n not in dropped]
    else:
        raise Unsupported("invariant inference did not converge")
    self.hseen.setdefault(hkey, set()).update(keep)
    # --- final run with the inductive invariants, recording obligations
    head = base_head.copy()
    hc = cands(head, idx)
    head.assume(*[hc[n] for n in keep])
    lem = getattr(self.contract, "lemmas", None)
    if lem is not None:
        # valid instances of proof principles (e.g. induction), see the contract
        head.assume(*lem(self, LoopCtx(self, head, entry, fr, idx, it, node)))
    self.hmode += 1
    try:
        backs, exits = run_body(head, idx)
    finally:
        self.hmode -= 1
    if not self.silent:
        for n in keep:
            self.oblige(entry, f"inv-entry[{n}]", entry_c[n], where)
        for s in backs:
            bc = cands(s, idx + 1 if isfor else None)
            for n in keep:
                self.oblige(s, f"inv-preserved[{n}]", bc[n], where)
            if isfor and it.lv is not None and it.base is not None:
                cur = self.list_get(s, it.lv)[1] if not isinstance(s.heap.get(getattr(it.lv, "lid", None)), DictCell) else None
                if isinstance(cur, S) and not z3.eq(cur.e, it.base.e):
                    self.oblige(s, "iterated-list-unchanged", cur.e == it.base.e, where)
        self.termination(entry, head, backs, node, fr, it, idx, where)
        self.loopinfo.append({"where": where, "line": node.lineno, "invariants": keep})
    return self._loop_exits(exits, head, node, fr, it, idx)


@method
def _loop_exits(self, exits, head, node, fr, it, idx):
    isfor = it is not None
    out = list(exits)
    if isfor:
        s = head.copy().assume(idx == it.length)
        if it.bag is not None:
            s.assume(it.bag.t.fns()[4](it.bag.e, idx) == it.bag.t.fns()[2](it.bag.e))
        if self.feasible(s):
            out += self.block(s, node.orelse, fr)
    else:
        for s, v in self.ev(head.copy(), node.test, fr):
            if isinstance(v, Raised):
                continue  # already in exits
            for s2, t in self.branch(s, v):
                if not t:
                    out += self.block(s2, node.orelse, fr)
    return out


@method
def termination(self, entry, head, backs, node, fr, it, idx, where):
    if it is not None:
        return  # bounded by the (unchanged) iterated sequence
    h = getattr(self.contract, "measures", None)
    if h is None:
        return
    lc0 = LoopCtx(self, head, entry, fr, idx, it, node)
    ms0 = dict(h(self, lc0))
    if not ms0:
        if getattr(self.contract, "no_termination", False):
            return
    ok_name = None
    best = None
    for n in ms0:
        good = True
        for s in backs:
            ms = dict(h(self, LoopCtx(self, s, entry, fr, idx, it, node)))
            if n not in ms:
                good = False
                break
            m0s, m1s = ms0[n], ms[n]
            if not isinstance(m0s, (list, tuple)):
                m0s, m1s = [m0s], [m1s]
            goal = lex_less(m1s, m0s)
            v = solver.prove(self.axioms, s.pc, goal, timeout_s=4, use_cvc5=False, quick=True)
            if v.status != "proved":
                good = False
                break
        if good:
            ok_name = n
            break
        best = best or n
    n = ok_name or best
    if n is None:
        self.oblige(head, "terminates[no-measure]", z3.BoolVal(False) if backs else z3.BoolVal(True), where)
        return
    for s in backs:
        ms = dict(h(self, LoopCtx(self, s, entry, fr, idx, it, node)))
        m0s, m1s = ms0[n], ms.get(n)
        if m1s is None:
            self.oblige(s, f"terminates[{n}]", z3.BoolVal(False), where)
            continue
        if not isinstance(m0s, (list, tuple)):
            m0s, m1s = [m0s], [m1s]
        self.oblige(s, f"terminates[{n}]", lex_less(m1s, m0s), where)


def lex_less(a, b):
    """a < b lexicographically, components of b non-negative."""
    e = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        e = z3.Or(z3.And(x < y, y > 0, x >= 0), z3.And(x == y, e))
    return e


@method
def generic_candidates(self, lc):
    out = []
    ent = lc.locals(lc.entry)
    now = lc.locals()
    ints = []
    for k, v in now.items():
        if isinstance(v, S) and v.t == TInt and k in ent:
            e0 = self.try_embed(lc.entry, ent[k], TInt)
            if e0 is None:
                continue
            nm = f"{k[1]}@{k[0]}"
            out.append((f"{nm}>=entry", v.e >= e0))
            out.append((f"{nm}<=entry", v.e <= e0))
            if lc.idx is not None:
                out.append((f"{nm}==entry+idx", v.e == e0 + lc.idx))
            ints.append((nm, v.e))
        elif isinstance(v, C) and isinstance(v.v, int) and not isinstance(v.v, bool) and k in ent:
            e = z3.IntVal(v.v)
            e0 = self.try_embed(lc.entry, ent[k], TInt)
            if e0 is None:
                continue
            nm = f"{k[1]}@{k[0]}"
            out.append((f"{nm}>=entry", e >= e0))
            out.append((f"{nm}<=entry", e <= e0))
            if lc.idx is not None:
                out.append((f"{nm}==entry+idx", e == e0 + lc.idx))
            ints.append((nm, e))
    # lengths of sequences bound integer locals
    for k, v in now.items():
        kk, c = self.list_get(lc.st, v) if isinstance(v, (L, FL, S)) else (None, None)
        ln = None
        if kk == "seq":
            ln = self.seq_len(c)
        elif kk == "items":
            ln = z3.IntVal(len(c))
        elif isinstance(v, S) and v.t == TStr:
            ln = z3.Length(v.e)
        if ln is None:
            continue
        for nm, e in ints:
            out.append((f"{nm}<=len({k[1]}@{k[0]})", e <= ln))
            out.append((f"{nm}<len({k[1]}@{k[0]})", e < ln))
    return out
