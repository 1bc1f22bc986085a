"""Expression evaluation."""
import ast
import enum
import builtins as pybuiltins
import z3
from .values import *
from .engine import (Fr, SymIter, B, _and, _or, Obligation, assigned_names, SRC)


def method(f):
    f._engine_method = True
    return f


@method
def bind(self, rs, f):
    out = []
    for s, v in rs:
        if isinstance(v, Raised):
            out.append((s, v))
        else:
            out.extend(f(s, v))
    return out


@method
def ev_many(self, st, nodes, fr):
    """[(st, [V...] | Raised)]"""
    acc = [(st, [])]
    for n in nodes:
        nxt = []
        for s, vs in acc:
            if isinstance(vs, Raised):
                nxt.append((s, vs))
                continue
            if isinstance(n, ast.Starred):
                for s2, v in self.ev(s, n.value, fr):
                    if isinstance(v, Raised):
                        nxt.append((s2, v))
                    else:
                        for s3, it in self.iterate(s2, v):
                            if not isinstance(it, list):
                                raise Unsupported("starred symbolic")
                            nxt.append((s3, vs + it))
                continue
            for s2, v in self.ev(s, n, fr):
                nxt.append((s2, v if isinstance(v, Raised) else vs + [v]))
        acc = nxt
    return acc


@method
def ev(self, st, node, fr):
    m = getattr(self, "ev_" + type(node).__name__, None)
    if m is None:
        raise Unsupported(f"expression {type(node).__name__} at line {getattr(node, 'lineno', '?')}")
    return m(st, node, fr)


@method
def ev_Constant(self, st, node, fr):
    return [(st, C(node.value))]


@method
def lookup(self, st, name, fr):
    f = fr
    while f is not None:
        if name in f.globals_:
            break
        vs = st.frames.get(f.fid)
        if vs is not None and name in vs and name not in f.nonlocals:
            return f, vs[name]
        f = f.parent
    mod = SRC_module(fr.module)
    if name in vars(mod):
        return None, C(vars(mod)[name])
    if hasattr(pybuiltins, name):
        return None, C(getattr(pybuiltins, name))
    raise Unsupported(f"unresolved name {name}")


_mods = {}


def SRC_module(name):
    import importlib
    if name not in _mods:
        _mods[name] = importlib.import_module(name)
    return _mods[name]


@method
def ev_Name(self, st, node, fr):
    f, v = self.lookup(st, node.id, fr)
    if isinstance(v, Undef):
        return [(st, Raised(UnboundLocalError, node.id))]
    if f is None and isinstance(v, C) and isinstance(v.v, (list, dict, set)):
        v = self.import_const(st, v.v)
    if isinstance(v, S) and isinstance(v.t, TOpt):
        out = []
        for s, x in self.force(st, v):
            if f is not None:
                s.frames[f.fid][node.id] = x
            out.append((s, x))
        return out
    return [(st, v)]


@method
def import_const(self, st, x):
    """A module-level mutable constant, read-only use."""
    if isinstance(x, list):
        return Tup([self.import_const(st, y) for y in x])
    if isinstance(x, dict):
        ok = all(isinstance(k, (str, int, enum.Enum, tuple, type(None))) for k in x)
        if not ok:
            return C(x)
        return st.alloc(DictCell(items={k: self.import_const(st, y) for k, y in x.items()}))
    if isinstance(x, set):
        return C(frozenset(x))
    return C(x)


@method
def ev_JoinedStr(self, st, node, fr):
    acc = [(st, C(""))]
    for p in node.values:
        if isinstance(p, ast.Constant):
            acc = self.bind(acc, lambda s, v: [(s, self.strcat(s, v, C(p.value)))])
        else:
            def one(s, v, p=p):
                try:
                    rs = self.ev(s, p.value, fr)
                except Unsupported:
                    if self._only_for_message(node):
                        return [(s, S(TStr, TStr.fresh("fstr")))]
                    raise

                def fmt(s2, x):
                    if p.format_spec is not None:
                        spec = "".join(q.value for q in p.format_spec.values if isinstance(q, ast.Constant))
                        if isinstance(x, C) and len(p.format_spec.values) <= 1:
                            return [(s2, self.strcat(s2, v, C(format(x.v, spec))))]
                        h = getattr(self.contract, "format_hook", None)
                        r = h(self, s2, x, spec) if h is not None else None
                        return [(s2, self.strcat(s2, v, r if r is not None else S(TStr, TStr.fresh("fmt"))))]
                    if p.conversion == 114:
                        if isinstance(x, C):
                            return [(s2, self.strcat(s2, v, C(repr(x.v))))]
                        return [(s2, self.strcat(s2, v, S(TStr, TStr.fresh("repr"))))]
                    return [(s2, self.strcat(s2, v, self.to_str(s2, x)))]
                return self.bind(rs, fmt)
            acc = self.bind(acc, one)
    return acc


@method
def _only_for_message(self, node):
    return True


@method
def to_str(self, st, x):
    if isinstance(x, C):
        return C(format(x.v)) if not isinstance(x.v, enum.Enum) else C(format(x.v))
    if isinstance(x, S):
        if x.t == TStr:
            return x
        if x.t == TInt:
            return S(TStr, z3.If(x.e >= 0, z3.IntToStr(x.e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-x.e))))
        if isinstance(x.t, TEnum):
            ms = list(x.t.cls)
            r = z3.StringVal(format(ms[-1]))
            for m in ms[:-1]:
                r = z3.If(x.e == x.t.member(m), z3.StringVal(format(m)), r)
            return S(TStr, r)
        f = z3.Function("str_" + x.t.nm(), x.t.sort(), z3.StringSort())
        return S(TStr, f(x.e))
    return S(TStr, TStr.fresh("str"))


@method
def strcat(self, st, a, b):
    if isinstance(a, C) and isinstance(b, C):
        return C(a.v + b.v)
    if isinstance(a, C) and a.v == "":
        return b
    if isinstance(b, C) and b.v == "":
        return a
    return S(TStr, z3.Concat(self.embed(st, a, TStr), self.embed(st, b, TStr)))


@method
def ev_Tuple(self, st, node, fr):
    return self.bind2(self.ev_many(st, node.elts, fr), lambda s, vs: [(s, Tup(vs) if not all(isinstance(v, C) and _hashable(v.v) for v in vs) else C(tuple(v.v for v in vs)))])


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


@method
def bind2(self, rs, f):
    return self.bind(rs, f)


@method
def ev_List(self, st, node, fr):
    return self.bind(self.ev_many(st, node.elts, fr), lambda s, vs: [(s, s.alloc(ListCell(items=list(vs))))])


@method
def ev_Set(self, st, node, fr):
    def mk(s, vs):
        if all(isinstance(v, C) and _hashable(v.v) for v in vs):
            seen = []
            for v in vs:
                if v.v not in [x.v for x in seen]:
                    seen.append(v)
            vs = seen
        return [(s, s.alloc(SetCell(items=list(vs))))]
    return self.bind(self.ev_many(st, node.elts, fr), mk)


@method
def ev_Dict(self, st, node, fr):
    if any(k is None for k in node.keys):
        def unpack(s, vs):
            d = s.alloc(DictCell(items={}))
            ks = iter(vs[:sum(k is not None for k in node.keys)])
            for k, v in zip(node.keys, vs[sum(k is not None for k in node.keys):]):
                if k is not None:
                    (_, bad), = self.setitem(s, d, next(ks), v)
                else:
                    if not (isinstance(v, L) and isinstance(s.heap[v.lid], DictCell)):
                        raise Unsupported("dict unpacking")
                    self.dict_update(s, d, s.heap[v.lid])
            return [(s, d)]
        return self.bind(self.ev_many(st, [k for k in node.keys if k is not None] + list(node.values), fr), unpack)
    def mk(s, vs):
        n = len(node.keys)
        return self.make_dict(s, list(zip(vs[:n], vs[n:])))
    return self.bind(self.ev_many(st, list(node.keys) + list(node.values), fr), mk)


@method
def make_dict(self, st, pairs):
    if all(isinstance(k, C) and _hashable(k.v) for k, _ in pairs):
        return [(st, st.alloc(DictCell(items={k.v: v for k, v in pairs})))]
    d = st.alloc(DictCell(items={}))
    acc = [(st, d)]
    for k, v in pairs:
        acc = self.bind(acc, lambda s, d_: [(s2, d_) for s2, _ in self.setitem(s, d_, k, v)])
    return acc


@method
def ev_Lambda(self, st, node, fr):
    fn = ast.FunctionDef(name="<lambda>", args=node.args, body=[ast.Return(value=node.body, lineno=node.lineno, col_offset=0)], decorator_list=[], lineno=node.lineno, col_offset=0)
    return [(st, self.make_fn(st, fn, fr, []))]


@method
def make_fn(self, st, node, fr, defaults):
    return Fn(node, fr, fr.qual + "." + node.name, defaults)


@method
def ev_IfExp(self, st, node, fr):
    def br(s, c):
        out = []
        for s2, t in self.branch(s, c):
            out += self.ev(s2, node.body if t else node.orelse, fr)
        return out
    return self.bind(self.ev(st, node.test, fr), br)


@method
def branch(self, st, v):
    """[(st, bool)]"""
    a, b = self.fork(st, self.truth(st, v))
    out = []
    if a is not None:
        out.append((a, True))
    if b is not None:
        out.append((b, False))
    return out


@method
def ev_BoolOp(self, st, node, fr):
    is_and = isinstance(node.op, ast.And)

    def go(s, i):
        def after(s2, v):
            if i == len(node.values) - 1:
                return [(s2, v)]
            out = []
            for s3, t in self.branch(s2, v):
                if t == is_and:
                    out += go(s3, i + 1)
                else:
                    out.append((s3, v if not (isinstance(v, S) and v.t == TBool) else C(t)))
            return out
        return self.bind(self.ev(s, node.values[i], fr), after)
    return go(st, 0)


@method
def ev_UnaryOp(self, st, node, fr):
    def un(s, v):
        if isinstance(node.op, ast.Not):
            t = self.truth(s, v)
            return [(s, C(not t) if isinstance(t, bool) else self.wrap(s, z3.Not(t), TBool))]
        if isinstance(v, C):
            if isinstance(node.op, ast.USub):
                return [(s, C(-v.v))]
            if isinstance(node.op, ast.UAdd):
                return [(s, C(+v.v))]
            if isinstance(node.op, ast.Invert):
                return [(s, C(~v.v))]
        if isinstance(v, S) and v.t in (TInt, TReal):
            return [(s, S(v.t, -v.e) if isinstance(node.op, ast.USub) else v)]
        raise Unsupported("unary op")
    return self.bind(self.ev(st, node.operand, fr), un)


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}


@method
def ev_BinOp(self, st, node, fr):
    return self.bind(self.ev_many(st, [node.left, node.right], fr), lambda s, vs: self.binop_r(s, OPS[type(node.op)], vs[0], vs[1]))


@method
def binop(self, st, op, a, b):
    rs = self.binop_r(st, op, a, b)
    if len(rs) != 1 or isinstance(rs[0][1], Raised):
        raise Unsupported("binop fork")
    return rs[0][1]


@method
def binop_r(self, st, op, a, b):
    import operator as o
    pyop = {"+": o.add, "-": o.sub, "*": o.mul, "/": o.truediv, "//": o.floordiv, "%": o.mod, "**": o.pow, "|": o.or_, "&": o.and_, "^": o.xor, "<<": o.lshift, ">>": o.rshift}[op]
    if isinstance(a, C) and isinstance(b, C):
        try:
            return [(st, C(pyop(a.v, b.v)))]
        except Exception as e:
            return [(st, Raised(type(e), str(e)))]
    ta, tb = self.shape_ty(st, a), self.shape_ty(st, b)
    num = (TInt, TReal, TBool)
    if ta in num and tb in num:
        if op == "/":
            ea, eb = self.embed(st, a, TReal), self.embed(st, b, TReal)
            z, nz = self.fork(st, eb == 0)
            out = []
            if z is not None:
                out.append((z, Raised(ZeroDivisionError)))
            if nz is not None:
                out.append((nz, S(TReal, ea / eb)))
            return out
        t = TReal if TReal in (ta, tb) else TInt
        ea, eb = self.embed(st, a, t), self.embed(st, b, t)
        if op in "+-*" and op != "**":
            return [(st, self.wrap(st, {"+": ea + eb, "-": ea - eb, "*": ea * eb}[op], t))]
        if op in ("//", "%"):
            if t != TInt:
                raise Unsupported("real // or %")
            z, nz = self.fork(st, eb == 0)
            out = []
            if z is not None:
                out.append((z, Raised(ZeroDivisionError)))
            if nz is not None:
                # z3 div rounds so that the remainder is non-negative; Python floors
                q = z3.If(eb > 0, ea / eb, (-ea) / (-eb))
                r = q if op == "//" else ea - eb * q
                out.append((nz, self.wrap(nz, r, TInt)))
            return out
        raise Unsupported(f"arithmetic {op}")
    if op == "+" and ta == TStr and tb == TStr:
        return [(st, self.strcat(st, a, b))]
    if op == "+":
        ka, xa = self.list_get(st, a)
        kb, xb = self.list_get(st, b)
        if ka and kb:
            if ka == "items" and kb == "items":
                if isinstance(a, (Tup, C)):
                    return [(st, Tup(list(xa) + list(xb)))]
                return [(st, st.alloc(ListCell(items=list(xa) + list(xb))))]
            if ka == "items" and not xa:
                return [(st, st.alloc(ListCell(seq=xb)))]
            if kb == "items" and not xb:
                return [(st, st.alloc(ListCell(seq=xa)))]
            t = xa.t if ka == "seq" else xb.t
            if isinstance(t, TBag):
                if kb != "items":
                    ea = self.embed(st, st.alloc(ListCell(items=xa)) if ka == "items" else xa, t)
                    return [(st, st.alloc(ListCell(seq=S(t, self.bag_concat(st, t, ea, self.embed(st, xb, t))))))]
                e, arr = xa.e, getattr(xa, "enum_of", None)
                for y in xb:
                    ye = self.embed(st, y, t.t)
                    e = self.bag_append(st, t, e, ye)
                    arr = z3.Store(arr, ye, z3.BoolVal(True)) if arr is not None else None
                r = S(t, e)
                if arr is not None:
                    r.enum_of = arr  # the set of its elements
                return [(st, st.alloc(ListCell(seq=r)))]
            tt = t
            ea = xa.e if ka == "seq" else self._seq_of(st, xa, tt)
            eb = xb.e if kb == "seq" else self._seq_of(st, xb, tt)
            return [(st, st.alloc(ListCell(seq=S(tt, z3.Concat(ea, eb)))))]
    if op == "*" and ta == TStr and isinstance(b, C):
        return [(st, S(TStr, z3.Concat(*[self.embed(st, a, TStr)] * b.v)))] if b.v > 1 else [(st, a if b.v == 1 else C(""))]
    if op == "%" and ta == TStr:
        return [(st, S(TStr, TStr.fresh("fmt")))]
    if op == "|" and all(isinstance(x, L) and isinstance(st.heap[x.lid], DictCell) for x in (a, b)):
        c = st.heap[a.lid]
        d = st.alloc(DictCell(items=dict(c.items) if c.items is not None else None, sym=c.sym))
        self.dict_update(st, d, st.heap[b.lid])
        return [(st, d)]
    if op in "|&-" and isinstance(ta, TSet) or isinstance(tb, TSet):
        return self.set_binop(st, op, a, b)
    if op in "+-*/" and (ta is not None and tb is not None or _isnone(a) or _isnone(b)):
        return [(st, Raised(TypeError, f"{ta} {op} {tb}"))]
    raise Unsupported(f"binop {op} on {a} and {b}")


def _isnone(v):
    return isinstance(v, C) and v.v is None


@method
def set_binop(self, st, op, a, b):
    t = self.shape_ty(st, a) or self.shape_ty(st, b)
    if t is None or not isinstance(t, TSet):
        t = self.shape_ty(st, b)
    ea, eb = self.embed(st, a, t), self.embed(st, b, t)
    x = z3.Const("x", t.t.sort())
    if op == "|":
        r = z3.SetUnion(ea, eb)
    elif op == "&":
        r = z3.SetIntersect(ea, eb)
    elif op == "-":
        r = z3.SetDifference(ea, eb)
    else:
        raise Unsupported("set op")
    return [(st, st.alloc(SetCell(sym=S(t, r))))]


@method
def ev_Compare(self, st, node, fr):
    def go(s, left, i):
        def after(s2, right):
            rs = self.compare(s2, node.ops[i], left, right)
            if i == len(node.ops) - 1:
                return rs

            def nxt(s3, v):
                out = []
                for s4, t in self.branch(s3, v):
                    if t:
                        out += go(s4, right, i + 1)
                    else:
                        out.append((s4, FALSE))
                return out
            return self.bind(rs, nxt)
        return self.bind(self.ev(s, node.comparators[i], fr), after)
    return self.bind(self.ev(st, node.left, fr), lambda s, v: go(s, v, 0))


@method
def compare(self, st, op, a, b):
    def ret(e):
        return [(st, C(e) if isinstance(e, bool) else self.wrap(st, e, TBool))]

    def neg(e):
        return (not e) if isinstance(e, bool) else z3.Not(e)
    if isinstance(op, ast.Is):
        return ret(self.identical(st, a, b))
    if isinstance(op, ast.IsNot):
        return ret(neg(self.identical(st, a, b)))
    if isinstance(op, (ast.Eq, ast.NotEq)):
        r = self.eq_call(st, a, b)
        if r is not None:
            return r if isinstance(op, ast.Eq) else self.bind(r, lambda s, v: [(s, C(not self.truth(s, v)) if isinstance(self.truth(s, v), bool) else self.wrap(s, z3.Not(self.truth(s, v)), TBool))])
        e = self.eq(st, a, b)
        return ret(e if isinstance(op, ast.Eq) else neg(e))
    if isinstance(op, (ast.In, ast.NotIn)):
        rs = self.contains(st, b, a)
        if isinstance(op, ast.In):
            return rs
        return self.bind(rs, lambda s, v: [(s, C(not v.v) if isinstance(v, C) else S(TBool, z3.Not(v.e)))])
    # ordering
    if isinstance(a, C) and isinstance(b, C):
        try:
            r = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)](a.v, b.v)
            return [(st, C(r))]
        except TypeError as e:
            return [(st, Raised(TypeError, str(e)))]
    ta, tb = self.shape_ty(st, a), self.shape_ty(st, b)
    num = (TInt, TReal, TBool)
    if ta in num and tb in num:
        t = TReal if TReal in (ta, tb) else TInt
        x, y = self.embed(st, a, t), self.embed(st, b, t)
        return ret({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
    if ta == TStr and tb == TStr:
        x, y = self.embed(st, a, TStr), self.embed(st, b, TStr)
        return ret({ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: y < x, ast.GtE: lambda: y <= x}[type(op)]())
    if isinstance(ta, TSet) and isinstance(tb, TSet):
        x, y = self.embed(st, a, ta), self.embed(st, b, tb)
        if isinstance(op, ast.LtE):
            return ret(z3.IsSubset(x, y))
        if isinstance(op, ast.GtE):
            return ret(z3.IsSubset(y, x))
    if _isnone(a) or _isnone(b) or (ta is not None and tb is not None and ta != tb):
        return [(st, Raised(TypeError, f"ordering {ta} {tb}"))]
    raise Unsupported(f"ordering {a} {b}")


@method
def eq_call(self, st, a, b):
    """User-defined __eq__ via contract model, or None."""
    h = getattr(self.contract, "eq_hook", None)
    return h(self, st, a, b) if h else None


@method
def contains(self, st, cont, x):
    def ret(e):
        e = e if isinstance(e, bool) else z3.simplify(e)
        return [(st, C(e) if isinstance(e, bool) else self.wrap(st, e, TBool))]
    if isinstance(cont, C) and isinstance(x, C):
        try:
            return [(st, C(x.v in cont.v))]
        except TypeError as e:
            return [(st, Raised(TypeError, str(e)))]
    tc = self.shape_ty(st, cont)
    if tc == TStr:
        if _isnone(x):
            return [(st, Raised(TypeError, "in <str> requires str"))]
        xe = self.embed(st, x, TStr)
        if isinstance(cont, C):
            # membership of a short symbolic string in a literal: exact for len<=1
            chars = list(dict.fromkeys(cont.v))
            one = _or([xe == strval(ch) for ch in chars])
            one = z3.Or(one, xe == z3.StringVal(""))
            try:
                lit = self.static_len(x)
            except Unsupported:
                lit = None
            if lit is not None and lit <= 1:
                return ret(one)
            return ret(z3.If(z3.Length(xe) <= 1, one, z3.Contains(lift(cont.v, TStr), xe)))
        return ret(z3.Contains(self.embed(st, cont, TStr), xe))
    k, c = self.list_get(st, cont)
    if k == "items":
        es = []
        for y in c:
            e = self.eq(st, x, y)
            if e is True:
                return ret(True)
            if e is not False:
                es.append(e)
        return ret(_or(es) if es else False)
    if k == "seq":
        xe = self.try_embed(st, x, c.t.t)
        if xe is None:
            return ret(False)
        if isinstance(c.t, TBag):
            return ret(z3.Select(c.t.fns()[2](c.e), xe) > 0)
        return ret(z3.Contains(c.e, z3.Unit(xe)))
    if isinstance(cont, C) and isinstance(cont.v, dict):
        return ret(_or([B(self.eq(st, x, C(y))) for y in cont.v]))
    if isinstance(cont, Lazy) and cont.kind == "keys":
        return self.contains(st, cont.d, x)
    if isinstance(cont, L):
        cell = st.heap[cont.lid]
        if isinstance(cell, DictCell):
            if cell.items is not None:
                es = [B(self.eq(st, x, C(y))) for y in cell.items]
                return ret(_or(es))
            t = cell.sym.t
            return ret(z3.Select(t.has(cell.sym.e), self.embed(st, x, t.k)))
        if isinstance(cell, SetCell):
            if cell.items is not None:
                es = [B(self.eq(st, x, y)) for y in cell.items]
                return ret(_or(es))
            xe = self.try_embed(st, x, cell.sym.t.t)
            return ret(z3.Select(cell.sym.e, xe)) if xe is not None else ret(False)
        if isinstance(cell, ObjCell):
            fn = getattr(cell.cls, "__contains__", None)
            if fn is not None:
                return self.call(st, BM(cont, "__contains__"), [x], {})
    if isinstance(cont, S) and isinstance(cont.t, TRec) and cont.t.kind == "dict" and isinstance(x, C):
        ft = cont.t.fields.get(x.v)
        if ft is None:
            return ret(False)
        if isinstance(ft, TOpt) and x.v in cont.t.absent:
            return ret(z3.Not(ft.is_none(cont.t.get(cont.e, x.v))))
        return ret(True)
    if isinstance(cont, S) and isinstance(cont.t, TSet):
        return ret(z3.Select(cont.e, self.embed(st, x, cont.t.t)))
    if isinstance(cont, S) and isinstance(cont.t, TMap):
        return ret(z3.Select(cont.t.has(cont.e), self.embed(st, x, cont.t.k)))
    if isinstance(cont, S) and isinstance(cont.t, TRef):
        return self.call(st, BM(cont, "__contains__"), [x], {})
    if _isnone(cont):
        return [(st, Raised(TypeError, "argument of type 'NoneType' is not iterable"))]
    raise Unsupported(f"{x} in {cont}")


@method
def static_len(self, v):
    if isinstance(v, C):
        return len(v.v)
    e = v.e
    if e.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(e.arg(2)):
        return e.arg(2).as_long()
    if e.decl().kind() == z3.Z3_OP_SEQ_AT:
        return 1
    raise Unsupported("len")


# ------------------------------------------------------------ attributes
@method
def ev_Attribute(self, st, node, fr):
    return self.bind(self.ev(st, node.value, fr), lambda s, v: self.getattr_(s, v, node.attr))


@method
def getattr_(self, st, v, name):
    h = getattr(self.contract, "getattr_hook", None)
    if h is not None:
        r = h(self, st, v, name)
        if r is not None:
            return r
    if isinstance(v, C):
        if v.v is None:
            return [(st, Raised(AttributeError, f"None.{name}"))]
        if isinstance(v.v, (str, int, float, tuple, dict, frozenset, list, set, bytes)) and not isinstance(v.v, enum.Enum):
            return [(st, BM(v, name))]
        if not hasattr(v.v, name):
            return [(st, Raised(AttributeError, name))]
        x = getattr(v.v, name)
        if isinstance(x, (list, dict, set)):
            return [(st, self.import_const(st, x))]
        return [(st, C(x))]
    if isinstance(v, L):
        cell = st.heap[v.lid]
        if isinstance(cell, ObjCell):
            if name in cell.fields:
                out = []
                for s, x in self.force(st, cell.fields[name]):
                    if x is not cell.fields[name]:
                        c2 = s.heap[v.lid]
                        s.heap[v.lid] = ObjCell(c2.cls, {**c2.fields, name: x})
                    out.append((s, x))
                return out
            return self.class_attr(st, v, cell.cls, name)
        return [(st, BM(v, name))]
    if isinstance(v, S):
        if isinstance(v.t, TRef):
            key = (v.t.cname, name)
            if key in st.fields:
                t, arr = st.fields[key]
                if isinstance(t, TBag):
                    return [(st, FL(v.t.cname, name, v.e))]
                return self.force(st, self.wrap(st, z3.Select(arr, v.e), t))
            cls = self.refcls.get(v.t.cname)
            if cls is not None:
                return self.class_attr(st, v, cls, name)
            return [(st, BM(v, name))]
        if isinstance(v.t, TRec) and v.t.kind == "obj":
            if name in v.t.fields:
                return self.force(st, self.wrap(st, v.t.get(v.e, name), v.t.fields[name]))
            return self.class_attr(st, v, v.t.pycls, name)
        if isinstance(v.t, TEnum) and name in ("value", "name"):
            ms = list(v.t.cls)
            e = lift(getattr(ms[-1], name), TStr)
            for m in ms[:-1]:
                e = z3.If(v.e == v.t.member(m), lift(getattr(m, name), TStr), e)
            return [(st, S(TStr, e))]
        return [(st, BM(v, name))]
    if isinstance(v, (Tup, FL, Fn, BM, Lazy)):
        return [(st, BM(v, name))]
    raise Unsupported(f"attribute {name} of {v}")


@method
def class_attr(self, st, recv, cls, name):
    """Attribute found on the class: method, property or class constant."""
    for k in cls.__mro__:
        if name in vars(k):
            x = vars(k)[name]
            if isinstance(x, property):
                return self.call(st, C(x.fget), [recv], {})
            if isinstance(x, staticmethod):
                return [(st, C(x.__func__))]
            if isinstance(x, classmethod):
                return [(st, BM(C(cls), name))]
            if callable(x):
                return [(st, BM(recv, name))]
            return [(st, C(x))]
    if name == "__class__":
        return [(st, C(cls))]
    h = getattr(self.contract, "method_hook", None)
    if h is not None:
        return [(st, BM(recv, name))]
    return [(st, Raised(AttributeError, f"{cls.__name__}.{name}"))]


@method
def setattr_(self, st, v, name, x):
    if isinstance(v, L) and isinstance(st.heap[v.lid], ObjCell):
        c = st.heap[v.lid]
        st.heap[v.lid] = ObjCell(c.cls, {**c.fields, name: x})
        return [(st, None)]
    if isinstance(v, S) and isinstance(v.t, TRef) and (v.t.cname, name) in st.fields:
        t, arr = st.fields[(v.t.cname, name)]
        st.fields[(v.t.cname, name)] = (t, z3.Store(arr, v.e, self.embed(st, x, t)))
        return [(st, None)]
    if isinstance(v, C) and v.v is None:
        return [(st, Raised(AttributeError, f"None.{name}="))]
    raise Unsupported(f"set attribute {name} of {v}")


# ------------------------------------------------------------ subscripts
@method
def ev_Subscript(self, st, node, fr):
    def go(s, v):
        if isinstance(node.slice, ast.Slice):
            parts = [p if p is not None else ast.Constant(value=None) for p in (node.slice.lower, node.slice.upper, node.slice.step)]
            return self.bind(self.ev_many(s, parts, fr), lambda s2, ps: self.slice_(s2, v, *ps))
        return self.bind(self.ev(s, node.slice, fr), lambda s2, i: self.bind(self.getitem(s2, v, i), lambda s3, x: self.force(s3, x)))
    return self.bind(self.ev(st, node.value, fr), go)


@method
def norm_index(self, st, i, ln):
    """[(st, index term or None when out of range)] for Python indexing."""
    ie = self.embed(st, i, TInt)
    if isinstance(i, C):
        idx = ie if i.v >= 0 else ln + i.v
    else:
        idx = z3.If(ie >= 0, ie, ln + ie)
    ok, bad = self.fork(st, z3.And(0 <= idx, idx < ln))
    out = []
    if ok is not None:
        out.append((ok, z3.simplify(idx)))
    if bad is not None:
        out.append((bad, None))
    return out


@method
def getitem(self, st, v, i):
    if isinstance(v, C) and isinstance(i, C) and not isinstance(v.v, type):
        try:
            x = v.v[i.v]
        except Exception as e:
            return [(st, Raised(type(e), str(e)))]
        return [(st, self.import_const(st, x) if isinstance(x, (list, dict, set)) else C(x))]
    if isinstance(v, C) and isinstance(v.v, type):
        return [(st, v)]  # typing subscript
    if isinstance(v, C) and not isinstance(v.v, (str, tuple, list, dict, range, bytes)):
        if v.v is None:
            return [(st, Raised(TypeError, "None is not subscriptable"))]
        return [(st, v)]
    if isinstance(v, C) and isinstance(v.v, str) or isinstance(v, S) and v.t == TStr:
        e = self.embed(st, v, TStr)
        out = []
        for s, idx in self.norm_index(st, i, z3.Length(e)):
            if idx is None:
                out.append((s, Raised(IndexError, "string index out of range")))
            else:
                r = self.wrap(s, substr(e, idx, 1), TStr)
                if isinstance(r, S):
                    s.assume(z3.Length(r.e) == 1)
                out.append((s, r))
        return out
    k, c = self.list_get(st, v)
    if k == "items":
        if isinstance(i, C):
            try:
                return [(st, c[i.v])]
            except IndexError:
                return [(st, Raised(IndexError, "list index out of range"))]
            except TypeError as e:
                return [(st, Raised(TypeError, str(e)))]
        # symbolic index into a concrete spine: case split
        out = []
        ie = self.embed(st, i, TInt)
        n = len(c)
        if n > 24:
            t = self.shape_ty(st, st.alloc(ListCell(items=list(c))))
            return self.getitem(st, st.alloc(ListCell(seq=S(t, self._seq_of(st, c, t)))), i)
        for j in range(-n, n):
            ok, _ = self.fork(st, ie == j)
            if ok is not None:
                out.append((ok, c[j]))
        bad, _ = self.fork(st, z3.Or(ie < -n, ie >= n))
        if bad is not None:
            out.append((bad, Raised(IndexError)))
        return out
    if k == "seq":
        out = []
        for s, idx in self.norm_index(st, i, self.seq_len(c)):
            if idx is None:
                out.append((s, Raised(IndexError, "list index out of range")))
            else:
                out += self.force(s, self.seq_at(s, c, idx))
        return out
    if isinstance(v, L):
        cell = st.heap[v.lid]
        if isinstance(cell, DictCell):
            if cell.items is not None:
                if isinstance(i, C):
                    if i.v in cell.items:
                        return self.force(st, cell.items[i.v])
                    return [(st, Raised(KeyError, repr(i.v)))]
                out = []
                rest = st
                for kk, x in cell.items.items():
                    if rest is None:
                        break
                    e = self.eq(rest, i, C(kk))
                    hit, rest = self.fork(rest, e)
                    if hit is not None:
                        out += self.force(hit, x)
                if rest is not None:
                    out.append((rest, Raised(KeyError)))
                return out
            t = cell.sym.t
            ke = self.embed(st, i, t.k)
            ok, bad = self.fork(st, z3.Select(t.has(cell.sym.e), ke))
            out = []
            if ok is not None:
                out += self.force(ok, self.wrap(ok, z3.Select(t.get(cell.sym.e), ke), t.v))
            if bad is not None:
                out.append((bad, Raised(KeyError)))
            return out
        if isinstance(cell, ObjCell):
            return self.call(st, BM(v, "__getitem__"), [i], {})
    if isinstance(v, S) and isinstance(v.t, TMap):
        return self.getitem(st, st.alloc(DictCell(sym=v)), i)
    if isinstance(v, S) and isinstance(v.t, TRec) and v.t.kind == "dict" and isinstance(i, C):
        if i.v not in v.t.fields:
            return [(st, Raised(KeyError, repr(i.v)))]
        ft = v.t.fields[i.v]
        e = v.t.get(v.e, i.v)
        if i.v in v.t.absent:
            out = []
            a, b = self.fork(st, ft.is_none(e))
            if a is not None:
                out.append((a, Raised(KeyError, repr(i.v))))
            if b is not None:
                out += self.force(b, self.wrap(b, ft.val(e), ft.t))
            return out
        return self.force(st, self.wrap(st, e, ft))
    if isinstance(v, S) and isinstance(v.t, (TInt_, TBool_, TReal_)):
        return [(st, Raised(TypeError, "not subscriptable"))]
    raise Unsupported(f"subscript {v}[{i}]")


@method
def slice_(self, st, v, lo, hi, step):
    if isinstance(v, C) and all(isinstance(x, C) for x in (lo, hi, step)):
        return [(st, C(v.v[lo.v : hi.v : step.v]))]
    k, c = self.list_get(st, v)
    if k == "items" and all(isinstance(x, C) for x in (lo, hi, step)):
        r = c[lo.v : hi.v : step.v]
        return [(st, Tup(r) if isinstance(v, (Tup, C)) else st.alloc(ListCell(items=list(r))))]
    if _isnone(v):
        return [(st, Raised(TypeError, "None is not subscriptable"))]
    if not (isinstance(step, C) and step.v in (None, 1)):
        raise Unsupported("slice step")
    isstr = self.shape_ty(st, v) == TStr
    if isstr:
        e, t = self.embed(st, v, TStr), TStr
    elif k == "seq" and isinstance(c.t, TSeq):
        e, t = c.e, c.t
    elif k == "items":
        t = self.shape_ty(st, st.alloc(ListCell(items=list(c))))
        if t is None:
            return [(st, st.alloc(ListCell(items=[])))]
        e = self._seq_of(st, c, t)
    else:
        raise Unsupported(f"slice of {v}")
    ln = z3.Length(e)

    def clampv(x, default):
        if _isnone(x):
            return default
        xe = self.embed(st, x, TInt)
        if isinstance(x, C):
            if x.v >= 0:
                return xe
            return z3.If(ln + x.v >= 0, ln + x.v, z3.IntVal(0))
        a = z3.If(xe >= 0, xe, ln + xe)
        return z3.If(a >= 0, a, z3.IntVal(0))
    if (_isnone(lo) or isinstance(lo, C) and lo.v == 0) and isinstance(hi, C) and hi.v is not None and hi.v < 0:
        r = z3.SubSeq(e, 0, ln + hi.v) if not isstr else z3.SubString(e, 0, ln + hi.v)
        return [(st, self.wrap(st, r, TStr) if isstr else st.alloc(ListCell(seq=S(t, r))))]
    l = clampv(lo, z3.IntVal(0))
    if _isnone(hi):
        n = ln - l
    else:
        h = clampv(hi, ln)
        n = h - l
    # z3's extract yields empty when offset >= len or length <= 0 and clamps the end
    if isstr and (_isnone(lo) or isinstance(lo, C) and lo.v >= 0) and (_isnone(hi) or isinstance(hi, C) and hi.v >= 0):
        w = _window(e)
        if w is not None:
            a = lo.v if isinstance(lo, C) and lo.v is not None else 0
            b = min(hi.v, w[2]) if isinstance(hi, C) and hi.v is not None else w[2]
            return [(st, self.wrap(st, z3.SubString(w[0], w[1] + a, max(b - a, 0)), TStr))]
    r = z3.SubString(e, l, n) if isstr else z3.SubSeq(e, l, n)
    if isstr and isinstance(lo, C) and lo.v is not None and lo.v < 0 and _isnone(hi) and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        w = _window(e.children()[-1])
        if w is not None and w[2] >= -lo.v:
            st.assume(z3.Implies(z3.Length(e.children()[-1]) == w[2], r == z3.SubString(w[0], w[1] + w[2] + lo.v, -lo.v)))
    return [(st, self.wrap(st, r, TStr) if isstr else st.alloc(ListCell(seq=S(t, r))))]


def _window(e):
    """(x, m, n) if e is the (at most) n characters of x from m, m and n known"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        x, m, n = e.children()
        m, n = z3.simplify(m), z3.simplify(n)
        if z3.is_int_value(m) and z3.is_int_value(n) and m.as_long() >= 0 and n.as_long() >= 0:
            return x, m.as_long(), n.as_long()
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_AT:
        x, m = e.children()
        m = z3.simplify(m)
        if z3.is_int_value(m) and m.as_long() >= 0:
            return x, m.as_long(), 1
    return None


def substr(e, a, n):
    """n characters of e from a, all inside e"""
    w, k = _window(e), z3.simplify(a) if z3.is_expr(a) else z3.IntVal(a)
    if w is not None and z3.is_int_value(k) and k.as_long() >= 0 and k.as_long() + n <= w[2]:
        return z3.SubString(w[0], w[1] + k.as_long(), n)
    return z3.SubString(e, a, n)


@method
def setitem(self, st, v, i, x):
    if isinstance(v, L):
        cell = st.heap[v.lid]
        if isinstance(cell, DictCell):
            if cell.items is not None:
                if isinstance(i, C):
                    st.heap[v.lid] = DictCell(items={**cell.items, i.v: x})
                    return [(st, None)]
                kt, vt = self.shape_ty(st, i), self.shape_ty(st, x)
                for kk, y in cell.items.items():
                    vt = self.join_tys([vt, self.shape_ty(st, y)])
                t = TMap(kt, vt)
                e = self.embed(st, v, t)
                cell = DictCell(sym=S(t, e))
                st.heap[v.lid] = cell
            t = cell.sym.t
            ke, xe = self.embed(st, i, t.k), self.embed(st, x, t.v)
            st.heap[v.lid] = DictCell(sym=S(t, t.mk(z3.Store(t.has(cell.sym.e), ke, z3.BoolVal(True)), z3.Store(t.get(cell.sym.e), ke, xe))))
            return [(st, None)]
        if isinstance(cell, ListCell):
            if cell.items is not None and isinstance(i, C):
                items = list(cell.items)
                try:
                    items[i.v] = x
                except IndexError:
                    return [(st, Raised(IndexError))]
                st.heap[v.lid] = ListCell(items=items)
                return [(st, None)]
            k, c = self.list_get(st, v)
            if k == "seq" and isinstance(c.t, TSeq):
                out = []
                for s, idx in self.norm_index(st, i, z3.Length(c.e)):
                    if idx is None:
                        out.append((s, Raised(IndexError)))
                        continue
                    xe = self.embed(s, x, c.t.t)
                    e = z3.Concat(z3.SubSeq(c.e, 0, idx), z3.Unit(xe), z3.SubSeq(c.e, idx + 1, z3.Length(c.e) - idx - 1))
                    s.heap[v.lid] = ListCell(seq=S(c.t, e))
                    out.append((s, None))
                return out
    if isinstance(v, Tup) or isinstance(v, C):
        return [(st, Raised(TypeError, "does not support item assignment"))]
    raise Unsupported(f"item assignment on {v}")


@method
def delitem(self, st, v, i):
    if isinstance(v, L):
        cell = st.heap[v.lid]
        if isinstance(cell, DictCell):
            if cell.items is not None and isinstance(i, C):
                if i.v not in cell.items:
                    return [(st, Raised(KeyError))]
                st.heap[v.lid] = DictCell(items={k: x for k, x in cell.items.items() if k != i.v})
                return [(st, None)]
            if cell.sym is not None:
                t = cell.sym.t
                ke = self.embed(st, i, t.k)
                ok, bad = self.fork(st, z3.Select(t.has(cell.sym.e), ke))
                out = []
                if ok is not None:
                    ok.heap[v.lid] = DictCell(sym=S(t, t.mk(z3.Store(t.has(cell.sym.e), ke, z3.BoolVal(False)), t.get(cell.sym.e))))
                    out.append((ok, None))
                if bad is not None:
                    out.append((bad, Raised(KeyError)))
                return out
        if isinstance(cell, ListCell) and cell.items is not None and isinstance(i, C):
            items = list(cell.items)
            try:
                del items[i.v]
            except IndexError:
                return [(st, Raised(IndexError))]
            st.heap[v.lid] = ListCell(items=items)
            return [(st, None)]
    raise Unsupported(f"del on {v}")


# ------------------------------------------------------------ comprehension
@method
def ev_ListComp(self, st, node, fr):
    return self.run_comp(st, node, fr, "list")


@method
def ev_SetComp(self, st, node, fr):
    return self.run_comp(st, node, fr, "set")


@method
def ev_DictComp(self, st, node, fr):
    return self.run_comp(st, node, fr, "dict")


@method
def ev_GeneratorExp(self, st, node, fr):
    return [(st, Lazy("genexp", node=node, fr=fr))]


@method
def run_comp(self, st, node, fr, kind):
    """Comprehension. Concrete sources are unrolled; one symbolic source is
    handled element-wise."""
    fid = st.new_frame({})
    f2 = Fr(fid, fr, fr.module, fr.qual, fr.cls)
    if len(node.generators) == 1:
        g = node.generators[0]
        out = []
        for s, src in self.ev(st, g.iter, fr):
            if isinstance(src, Raised):
                out.append((s, src))
                continue
            for s2, it in self.iterate(s, src):
                if isinstance(it, Raised):
                    out.append((s2, it))
                elif isinstance(it, list):
                    out += self._comp_concrete(s2, node, g, it, f2, kind)
                else:
                    out += self._comp_symbolic(s2, node, g, it, f2, kind)
        return out
    # several generators: only concrete
    def rec(s, gi, acc):
        if gi == len(node.generators):
            return self.bind(self.ev(s, node.elt, f2), lambda s2, v: [(s2, acc + [v])])
        g = node.generators[gi]
        res = []
        for s1, src in self.ev(s, g.iter, f2):
            if isinstance(src, Raised):
                res.append((s1, src))
                continue
            for s2, it in self.iterate(s1, src):
                if not isinstance(it, list):
                    raise Unsupported("nested symbolic comprehension")
                cur = [(s2, acc)]
                for x in it:
                    nxt = []
                    for s3, a in cur:
                        if isinstance(a, Raised):
                            nxt.append((s3, a))
                            continue
                        for s4, _ in self.assign(s3, g.target, x, f2):
                            conds = [(s4, True)]
                            for cnode in g.ifs:
                                c2 = []
                                for s5, ok in conds:
                                    if ok is not True:
                                        c2.append((s5, ok))
                                        continue
                                    c2 += self.bind(self.ev(s5, cnode, f2), lambda s6, v: [(s7, t) for s7, t in self.branch(s6, v)])
                                conds = c2
                            for s5, ok in conds:
                                if isinstance(ok, Raised):
                                    nxt.append((s5, ok))
                                elif not ok:
                                    nxt.append((s5, a))
                                else:
                                    nxt += rec2(s5, gi + 1, a)
                    cur = nxt
                res += cur
        return res

    def rec2(s, gi, a):
        return rec(s, gi, a)
    if kind == "dict":
        raise Unsupported("nested dict comprehension")
    rs = rec(st, 0, [])
    if kind == "list_iter":
        return rs
    return self.bind(rs, lambda s, items: [(s, s.alloc(ListCell(items=items) if kind == "list" else SetCell(items=items)))])


@method
def _comp_concrete(self, st, node, g, items, f2, kind):
    acc = [(st, [])]
    for x in items:
        nxt = []
        for s, a in acc:
            if isinstance(a, Raised):
                nxt.append((s, a))
                continue
            for s1, r in self.assign(s, g.target, x, f2):
                conds = [(s1, True)]
                for cnode in g.ifs:
                    c2 = []
                    for s5, ok in conds:
                        if ok is not True:
                            c2.append((s5, ok))
                            continue
                        c2 += self.bind(self.ev(s5, cnode, f2), lambda s6, v: self.branch(s6, v))
                    conds = c2
                for s5, ok in conds:
                    if isinstance(ok, Raised):
                        nxt.append((s5, ok))
                    elif not ok:
                        nxt.append((s5, a))
                    elif kind == "dict":
                        nxt += self.bind(self.ev_many(s5, [node.key, node.value], f2), lambda s6, kv: [(s6, a + [kv])])
                    else:
                        nxt += self.bind(self.ev(s5, node.elt, f2), lambda s6, v: [(s6, a + [v])])
        acc = nxt
    if kind == "list_iter":
        return acc
    if kind == "dict":
        return self.bind(acc, lambda s, kvs: self.make_dict(s, kvs))
    if kind == "set":
        return self.bind(acc, lambda s, vs: [(s, self.make_set(s, vs))])
    return self.bind(acc, lambda s, vs: [(s, s.alloc(ListCell(items=vs)))])


@method
def make_set(self, st, vs):
    res = []
    for v in vs:
        if isinstance(v, C) and any(isinstance(x, C) and x.v == v.v for x in res):
            continue
        res.append(v)
    return st.alloc(SetCell(items=res))


@method
def elementwise(self, st, it, target, f2, body):
    """Evaluate body for an arbitrary element k of it. Returns (k, outcomes)
    where outcomes = [(cond over k, V | Raised, state)].  No side effects."""
    k = z3.Int(fresh_name("k"))
    s = st.copy()
    n0 = len(s.pc)
    s.assume(0 <= k, k < it.length)
    base = s.copy()
    x = it.elem(s, k)
    outs = []
    for s1, r in self.assign(s, target, x, f2):
        for s2, v in body(s1):
            for key, cell in st.heap.items():
                if s2.heap.get(key) is not cell:
                    raise Unsupported("side effect in symbolic comprehension")
            if s2.fields != st.fields and any(s2.fields[q][1] is not st.fields[q][1] for q in st.fields):
                raise Unsupported("side effect in symbolic comprehension")
            cond = s2.pc[n0 + 2 :]
            outs.append((_and(cond), v, s2))
    names = {c.get_id() for c in free_consts(st.pc)}
    return k, outs


@method
def check_closed(self, e, k, st):
    """Every free constant of e other than k already existed."""
    known = set()
    for p in st.pc:
        for c in free_consts([p]):
            known.add(c.decl().name())
    return e


def free_consts(es):
    seen, out, stack = set(), [], list(es)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(e)
        stack.extend(e.children())
    return out


@method
def new_consts(self, e, mark):
    """Constants named base!n with n >= mark (created inside the element)."""
    bad = []
    for c in free_consts([e]):
        nm = c.decl().name()
        if "!" in nm:
            try:
                if int(nm.rsplit("!", 1)[1]) >= mark:
                    bad.append(c)
            except ValueError:
                pass
    return bad


@method
def forall_k(self, k, length, body, pats=None):
    rng = z3.And(0 <= k, k < length)
    return z3.ForAll([k], z3.Implies(rng, body), patterns=pats) if pats else z3.ForAll([k], z3.Implies(rng, body))


@method
def _comp_symbolic(self, st, node, g, it, f2, kind):
    from .values import _ids
    mark = next(_ids)

    def body(s):
        conds = [(s, TRUE)]
        for cnode in g.ifs:
            c2 = []
            for s5, ok in conds:
                if not (isinstance(ok, C) and ok.v is True):
                    c2.append((s5, ok))
                    continue
                c2 += self.bind(self.ev(s5, cnode, f2), lambda s6, v: [(s7, C(t)) for s7, t in self.branch(s6, v)])
            conds = c2
        out = []
        for s5, ok in conds:
            if isinstance(ok, Raised):
                out.append((s5, ok))
            elif not ok.v:
                out.append((s5, None))
            elif kind == "dict":
                out += self.bind(self.ev_many(s5, [node.key, node.value], f2), lambda s6, kv: [(s6, Tup(kv))])
            else:
                out += self.ev(s5, node.elt, f2)
        return out
    self.silent += 1
    try:
        k, outs = self.elementwise(st, it, g.target, f2, body)
    finally:
        self.silent -= 1
    res = []
    raises = [(c, v, s) for c, v, s in outs if isinstance(v, Raised)]
    goods = [(c, v, s) for c, v, s in outs if not isinstance(v, Raised)]
    for c, v, s in raises:
        s2 = st.copy().assume(0 <= k, k < it.length, c)
        if self.feasible(s2):
            res.append((s2, v))
    ok = st.copy()
    if not goods:
        ok.assume(it.length == 0)
        return res + [(ok, ok.alloc(ListCell(items=[])) if kind != "list_iter" else [])] if self.feasible(ok) else res
    filt = [v for c, v, s in goods if v is None]
    vals = [(c, v, s) for c, v, s in goods if v is not None]
    if raises:
        rc = _or([c for c, _, _ in raises])
        if not self.new_consts(rc, mark) or all(x.get_id() == k.get_id() for x in self.new_consts(rc, mark)):
            ok.assume(self.forall_k(k, it.length, z3.Not(rc)))
    if not vals:
        # every element filtered out
        return res + [(ok, ok.alloc(ListCell(items=[])) if kind == "list" else [] if kind == "list_iter" else ok.alloc(SetCell(items=[])) if kind == "set" else ok.alloc(DictCell(items={})))]
    ty = self.join_tys([self.shape_ty(s, v) for c, v, s in vals], any(_isnone(v) for _, v, _ in vals))
    if ty is None:
        raise Unsupported("comprehension element type")
    val = None
    for c, v, s in reversed(vals):
        e = self.embed(s, v, ty)
        val = e if val is None else z3.If(c, e, val)
    fresh = [x for x in self.new_consts(val, mark) if x.get_id() != k.get_id()]
    bag = it.bag is not None or kind == "set"
    t = TBag(ty) if (bag or kind == "set") else TSeq(ty)
    if isinstance(t, TBag):
        self.use_bag(t)
    r = t.fresh("comp")
    rs = S(t, r)
    ln = self.seq_len(rs)
    j = z3.Int("j!c")
    at = (lambda i: t.fns()[1](r, i)) if isinstance(t, TBag) else (lambda i: r[i])
    if fresh:
        ok.assume(ln <= it.length)
        if not filt:
            ok.assume(ln == it.length)
    elif not filt:
        ok.assume(ln == it.length)
        sub = z3.substitute(val, (k, j))
        pats = [at(j)] if isinstance(t, TBag) else None
        ok.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), at(j) == sub), patterns=pats) if pats else z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), at(j) == sub)))
    else:
        keep = _or([c for c, v, s in vals])
        fx = [x for x in self.new_consts(keep, mark) if x.get_id() != k.get_id()]
        ok.assume(ln <= it.length)
        if not fx:
            src = z3.Function(fresh_name("src"), z3.IntSort(), z3.IntSort())
            inv = z3.Function(fresh_name("inv"), z3.IntSort(), z3.IntSort())
            sj = src(j)
            ok.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), z3.And(0 <= sj, sj < it.length, z3.substitute(keep, (k, sj)), at(j) == z3.substitute(val, (k, sj)))), patterns=[at(j)] if isinstance(t, TBag) else [sj]))
            ok.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < it.length, keep), z3.And(0 <= inv(k), inv(k) < ln, src(inv(k)) == k, at(inv(k)) == val))))
    arr = getattr(it.base, "enum_of", None)
    if arr is not None and kind in ("dict", "list_iter") and not fresh:
        # over a set of keys: each element is given by its key
        keep = _or([c for c, v, s in vals]) if filt else z3.BoolVal(True)
        kx = z3.Const(fresh_name("key"), it.base.t.t.sort())
        a = it.base.t.fns()[1](it.base.e, k)
        kv, vv = z3.substitute(keep, (a, kx)), z3.substitute(val, (a, kx))
        if not any(c.get_id() == k.get_id() for c in free_consts([kv, vv])):
            rs.comp_of = (arr, kx, kv, vv)
    if kind == "dict":
        return res + [(ok, self.dict_of_pairs(ok, rs))]
    if kind == "set":
        st_ = TSet(ty)
        arr = st_.fresh("setc")
        x = z3.Const("x!c", ty.sort())
        ok.assume(z3.ForAll([x], z3.Select(arr, x) == (z3.Select(t.fns()[2](r), x) > 0), patterns=[z3.Select(arr, x)]))
        ok.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), z3.Select(arr, at(j))), patterns=[at(j)]))
        return res + [(ok, ok.alloc(SetCell(sym=S(st_, arr))))]
    if kind == "list_iter":
        return res + [(ok, SymIter(ln, lambda s_, i, rs=rs: self.seq_at(s_, rs, i), base=rs, bag=rs if isinstance(t, TBag) else None))]
    return res + [(ok, ok.alloc(ListCell(seq=rs)))]


@method
def dict_of_pairs(self, st, rs):
    """dict(pairs) over a symbolic list of pairs: the last value of a key wins."""
    t = rs.t
    ln = self.seq_len(rs)
    j = z3.Int("j!d")
    at = (lambda i: t.fns()[1](rs.e, i)) if isinstance(t, TBag) else (lambda i: rs.e[i])
    a, b = t.t.ts
    key, val = (lambda i: t.t.get(at(i), 0)), (lambda i: t.t.get(at(i), 1))
    mt = TMap(a, b)
    has, get = z3.Const(fresh_name("has"), z3.ArraySort(a.sort(), z3.BoolSort())), z3.Const(fresh_name("get"), z3.ArraySort(a.sort(), b.sort()))
    x = z3.Const("x!d", a.sort())
    if getattr(rs, "comp_of", None) is not None:
        arr, kx, keep, pair = rs.comp_of
        wit = z3.Function(fresh_name("wit"), a.sort(), kx.sort())
        here = z3.And(z3.Select(arr, kx), keep)
        st.assume(z3.ForAll([kx], z3.Implies(here, z3.Select(has, t.t.get(pair, 0))), patterns=[z3.Select(arr, kx)]))
        w = wit(x)
        st.assume(z3.ForAll([x], z3.Implies(z3.Select(has, x), z3.And(z3.substitute(here, (kx, w)), t.t.get(z3.substitute(pair, (kx, w)), 0) == x, z3.Select(get, x) == t.t.get(z3.substitute(pair, (kx, w)), 1))), patterns=[z3.Select(has, x)]))
        return st.alloc(DictCell(sym=S(mt, mt.mk(has, get))))
    wit = z3.Function(fresh_name("wit"), a.sort(), z3.IntSort())
    body = z3.Implies(z3.And(0 <= j, j < ln), z3.And(z3.Select(has, key(j)), j <= wit(key(j))))
    st.assume(z3.ForAll([j], body, patterns=[at(j)]) if isinstance(t, TBag) else z3.ForAll([j], body))
    st.assume(z3.ForAll([x], z3.Implies(z3.Select(has, x), z3.And(0 <= wit(x), wit(x) < ln, key(wit(x)) == x, z3.Select(get, x) == val(wit(x)))), patterns=[z3.Select(has, x)]))
    return st.alloc(DictCell(sym=S(mt, mt.mk(has, get))))


@method
def quant(self, st, src, pred, is_any, f2=None, target=None):
    """any()/all() over an iterable given by Lazy genexp or other value."""
    from .values import _ids
    if isinstance(src, Lazy) and src.kind == "genexp" and len(src.node.generators) == 1:
        g = src.node.generators[0]
        fid = st.new_frame({})
        fr2 = Fr(fid, src.fr, src.fr.module, src.fr.qual, src.fr.cls)
        out = []
        for s, sv in self.ev(st, g.iter, src.fr):
            if isinstance(sv, Raised):
                out.append((s, sv))
                continue
            e = self._quant_chars(s, src.node.elt, g, sv, src.fr, is_any)
            if e is not None:
                out.append((s, S(TBool, e)))
                continue
            for s2, it in self.iterate(s, sv):
                if isinstance(it, list):
                    out += self._quant_concrete(s2, src, g, it, fr2, is_any)
                else:
                    out += self._quant_symbolic(s2, src, g, it, fr2, is_any)
        return out
    out = []
    for s, it in self.iterate(st, src):
        if isinstance(it, Raised):
            out.append((s, it))
        elif isinstance(it, list):
            es = [self.truth(s, x) for x in it]
            if is_any:
                e = _or([B(x) for x in es])
            else:
                e = _and([B(x) for x in es])
            out.append((s, self.wrap(s, z3.simplify(e), TBool)))
        else:
            k = z3.Int(fresh_name("k"))
            e = B(self.truth(s, it.elem(s, k)))
            if is_any:
                out.append((s, S(TBool, z3.Exists([k], z3.And(0 <= k, k < it.length, e)))))
            else:
                out.append((s, S(TBool, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < it.length), e)))))
    return out


@method
def _quant_chars(self, st, elt, g, sv, fr, is_any):
    """any/all(c in "constant" for c in text), and with not in"""
    if not (isinstance(sv, S) and sv.t == TStr and not g.ifs and isinstance(g.target, ast.Name) and isinstance(elt, ast.Compare) and len(elt.ops) == 1 and isinstance(elt.ops[0], (ast.In, ast.NotIn)) and isinstance(elt.left, ast.Name) and elt.left.id == g.target.id and isinstance(elt.comparators[0], ast.Constant) and isinstance(elt.comparators[0].value, str) and elt.comparators[0].value):
        return None
    chars = sorted(set(elt.comparators[0].value))
    some = z3.Or(*[z3.Contains(sv.e, z3.StringVal(c)) for c in chars])
    outside = z3.Not(z3.InRe(sv.e, z3.Star(z3.Union(*[z3.Re(c) for c in chars]) if len(chars) > 1 else z3.Re(chars[0]))))
    inn = isinstance(elt.ops[0], ast.In)
    if is_any:
        return some if inn else outside
    return z3.Not(outside) if inn else z3.Not(some)


@method
def _quant_concrete(self, st, src, g, items, f2, is_any):
    live = [(st, None)]
    done = []
    for x in items:
        nxt = []
        for s, _ in live:
            for s1, _ in self.assign(s, g.target, x, f2):
                conds = [(s1, C(True))]
                for cnode in g.ifs:
                    c2 = []
                    for s5, ok in conds:
                        if isinstance(ok, Raised) or ok.v is not True:
                            c2.append((s5, ok))
                        else:
                            c2 += self.bind(self.ev(s5, cnode, f2), lambda s6, v: [(s7, C(t)) for s7, t in self.branch(s6, v)])
                    conds = c2
                for s5, ok in conds:
                    if isinstance(ok, Raised):
                        done.append((s5, ok))
                    elif not ok.v:
                        nxt.append((s5, None))
                    else:
                        for s6, v in self.ev(s5, src.node.elt, f2):
                            if isinstance(v, Raised):
                                done.append((s6, v))
                            else:
                                for s7, t in self.branch(s6, v):
                                    if t == is_any:
                                        done.append((s7, C(is_any)))
                                    else:
                                        nxt.append((s7, None))
        live = nxt
    return done + [(s, C(not is_any)) for s, _ in live]


@method
def _quant_symbolic(self, st, src, g, it, f2, is_any):
    from .values import _ids
    mark = next(_ids)

    def body(s):
        conds = [(s, C(True))]
        for cnode in g.ifs:
            c2 = []
            for s5, ok in conds:
                if isinstance(ok, Raised) or ok.v is not True:
                    c2.append((s5, ok))
                else:
                    c2 += self.bind(self.ev(s5, cnode, f2), lambda s6, v: [(s7, C(t)) for s7, t in self.branch(s6, v)])
            conds = c2
        out = []
        for s5, ok in conds:
            if isinstance(ok, Raised):
                out.append((s5, ok))
            elif not ok.v:
                out.append((s5, C(not is_any)))
            else:
                out += self.ev(s5, src.node.elt, f2)
        return out
    self.silent += 1
    try:
        k, outs = self.elementwise(st, it, g.target, f2, body)
    finally:
        self.silent -= 1
    stop, rz = [], {}
    for c, v, s in outs:
        if isinstance(v, Raised):
            rz.setdefault(v.cls, []).append((c, v))
            continue
        tv = self.truth(s, v)
        tv = B(tv)
        stop.append(_and([c, tv if is_any else z3.Not(tv)]))
    stopf = z3.simplify(_or(stop))
    raisef = z3.simplify(_or([c for l in rz.values() for c, _ in l]))
    for e in (stopf, raisef):
        bad = [x for x in self.new_consts(e, mark) if x.get_id() != k.get_id()]
        if bad:
            raise Unsupported(f"non-functional predicate in any/all: {bad[:3]}")
    j = z3.Int("j!q")
    none = lambda bound: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < bound), z3.Not(z3.Or(z3.substitute(stopf, (k, j)), z3.substitute(raisef, (k, j))))), patterns=self._pats(it, j))
    out = []
    a = st.copy().assume(0 <= k, k < it.length, stopf, none(k))
    # name the element so that triggers fire on the witness
    if self.feasible(a):
        out.append((a, C(is_any)))
    b = st.copy().assume(none(it.length))
    if self.feasible(b):
        out.append((b, C(not is_any)))
    for cls, l in rz.items():
        r = st.copy().assume(0 <= k, k < it.length, _or([c for c, _ in l]), none(k))
        if self.feasible(r):
            out.append((r, l[0][1]))
    return out


@method
def _pats(self, it, j):
    if it.bag is not None:
        t = it.bag.t
        return [t.fns()[1](it.bag.e, j)]
    return []


@method
def ev_NamedExpr(self, st, node, fr):
    return self.bind(self.ev(st, node.value, fr), lambda s, v: [(s2, v) for s2, _ in self.assign(s, node.target, v, fr)])


@method
def ev_Await(self, st, node, fr):
    return self.ev(st, node.value, fr)


@method
def ev_Yield(self, st, node, fr):
    f = fr
    def go(s, v):
        h = getattr(self.contract, "on_yield", None)
        if h is None:
            raise Unsupported("yield without a contract hook")
        return h(self, s, v)
    if node.value is None:
        return go(st, NONE)
    return self.bind(self.ev(st, node.value, fr), go)


@method
def ev_YieldFrom(self, st, node, fr):
    # the sub-generator's yields go to the same hook, its value is the result
    return self.ev(st, node.value, fr)


@method
def ev_Starred(self, st, node, fr):
    raise Unsupported("starred")
