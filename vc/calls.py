"""Calls: builtins, methods, contracts and inlining."""
import ast
import builtins as bi
import dataclasses
import decimal
import enum
import inspect
import itertools
import re
import types as pt
import z3
from .values import *
from .engine import Fr, SymIter, B, _and, _or, SRC, is_generator, has_ite
from .exprs import method, SRC_module, _isnone, _hashable


@method
def ev_Call(self, st, node, fr):
    # super().__init__() is resolved statically
    if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Call) and isinstance(node.func.value.func, ast.Name) and node.func.value.func.id == "super":
        return self.call_super(st, node, fr)

    def go(s, f):
        def withargs(s2, vs):
            kws = [k for k in node.keywords]
            def withkw(s3, kvs):
                kwargs = {}
                for k, v in zip(kws, kvs):
                    if k.arg is None:
                        cell = s3.heap[v.lid] if isinstance(v, L) else None
                        if isinstance(cell, DictCell) and cell.items is not None:
                            kwargs.update(cell.items)
                        else:
                            raise Unsupported("** of symbolic")
                    else:
                        kwargs[k.arg] = v
                return self.call(s3, f, vs, kwargs, node, fr)
            return self.bind(self.ev_many(s2, [k.value for k in kws], fr), withkw)
        # messages for logging are irrelevant and may use unsupported syntax
        if self.is_logging(f):
            return [(s, NONE)]
        return self.bind(self.ev_many(s, node.args, fr), withargs)
    return self.bind(self.ev(st, node.func, fr), go)


@method
def is_logging(self, f):
    if isinstance(f, C) and getattr(f.v, "__module__", "") and str(getattr(f.v, "__module__", "")).startswith("loguru"):
        return True
    if isinstance(f, C) and isinstance(getattr(f.v, "__self__", None), object) and type(getattr(f.v, "__self__", None)).__module__.startswith("loguru"):
        return True
    return False


@method
def call_super(self, st, node, fr):
    f = fr
    while f is not None and f.cls is None:
        f = f.parent
    selfv = None
    args0 = f.node.args.args[0].arg if f and f.node is not None else None
    selfv = st.frames[f.fid][args0]
    cell = st.heap.get(selfv.lid) if isinstance(selfv, L) else None
    mro = cell.cls.__mro__
    i = [k.__name__ for k in mro].index(f.cls.__name__)
    name = node.func.attr
    for k in mro[i + 1 :]:
        if name in vars(k):
            if k is object:
                return [(st, NONE)]
            return self.bind(self.ev_many(st, node.args, fr), lambda s, vs: self.call_py(s, vars(k)[name], [selfv] + vs, {}))
    return [(st, NONE)]


@method
def call(self, st, f, args, kwargs, node=None, fr=None):
    self.depth += 1
    if self.depth > self.MAX_DEPTH:
        raise Unsupported("call depth")
    try:
        h = getattr(self.contract, "call_hook", None)
        if h is not None:
            r = h(self, st, f, args, kwargs)
            if r is not None:
                return r
        if isinstance(f, BM):
            return self.call_method(st, f.recv, f.name, args, kwargs)
        if isinstance(f, Fn):
            return self.inline(st, f.node, f.env, f.qual, args, kwargs, f.defaults, f.env.module, None)
        if isinstance(f, C):
            return self.call_py(st, f.v, args, kwargs)
        if isinstance(f, L) and isinstance(st.heap[f.lid], ObjCell):
            return self.call_method(st, f, "__call__", args, kwargs)
        raise Unsupported(f"call of {f}")
    finally:
        self.depth -= 1


def fq(fn):
    return f"{getattr(fn, '__module__', None)}:{getattr(fn, '__qualname__', getattr(fn, '__name__', '?'))}"


@method
def call_py(self, st, fn, args, kwargs):
    if fn is None:
        return [(st, Raised(TypeError, "None is not callable"))]
    # bound python methods of concrete objects
    if isinstance(fn, pt.MethodType) and fn.__func__.__module__.startswith("vanillaplusjs"):
        return self.call_py(st, fn.__func__, [C(fn.__self__)] + list(args), kwargs)
    if isinstance(fn, pt.BuiltinMethodType) and isinstance(getattr(fn, "__self__", None), re.Pattern) and not all(isinstance(a, C) for a in args):
        return self.call_method(st, C(fn.__self__), fn.__name__, args, kwargs)
    try:
        m = self.models.get(fn)
    except TypeError:
        m = None
    if m is None:
        m = self.models.get(fq(fn))
    if m is not None:
        return m(self, st, args, kwargs)
    q = fq(fn)
    if q in self.modular:
        self.contracts_used.add(q)
        return self.modular[q].apply(self, st, args, kwargs)
    b = BUILTINS.get(fn) if _hashable(fn) else None
    if b is not None:
        return b(self, st, args, kwargs)
    if isinstance(fn, type):
        return self.construct(st, fn, args, kwargs)
    if isinstance(fn, pt.FunctionType) and (fn.__module__ or "").startswith("vanillaplusjs"):
        node = SRC.find(fn.__module__, fn.__qualname__)
        cls = None
        if "." in fn.__qualname__:
            cls = SRC.find(fn.__module__, fn.__qualname__.rsplit(".", 1)[0])
        defaults = []
        kwd = {}
        for d in (fn.__defaults__ or ()):
            defaults.append(self.import_const(st, d) if isinstance(d, (list, dict, set)) else C(d))
        for k, d in (fn.__kwdefaults__ or {}).items():
            kwd[k] = C(d)
        self.inlined.add(q)
        return self.inline(st, node, None, q, args, kwargs, defaults, fn.__module__, cls, kwd)
    if all(isinstance(a, C) for a in args) and all(isinstance(a, C) for a in kwargs.values()) and (q.split(":")[0] in PURE_MODULES or q in PURE):
        try:
            return [(st, C(fn(*[a.v for a in args], **{k: a.v for k, a in kwargs.items()})))]
        except Exception as e:
            return [(st, Raised(type(e), str(e)))]
    raise Unsupported(f"call of external {q}")


PURE_MODULES = {"posixpath", "genericpath", "string", "_operator", "math"}
PURE = {"urllib.parse:urlencode", "builtins:hex", "re:compile"}


@method
def bind_args(self, st, node, args, kwargs, defaults, kwd):
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    vals = {}
    kwargs = dict(kwargs)
    if len(args) > len(names):
        if a.vararg is None:
            return None, "too many arguments"
        vals[a.vararg.arg] = Tup(list(args[len(names) :]))
        args = args[: len(names)]
    elif a.vararg is not None:
        vals[a.vararg.arg] = Tup([])
    for n, v in zip(names, args):
        vals[n] = v
    for n in names[len(args) :]:
        if n in kwargs:
            vals[n] = kwargs.pop(n)
    nd = len(defaults)
    for n, d in zip(names[len(names) - nd :], defaults):
        if n not in vals:
            vals[n] = d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg in kwargs:
            vals[x.arg] = kwargs.pop(x.arg)
        elif kwd and x.arg in kwd:
            vals[x.arg] = kwd[x.arg]
        elif d is not None and isinstance(d, ast.Constant):
            vals[x.arg] = C(d.value)
    if a.kwarg is not None:
        vals[a.kwarg.arg] = st.alloc(DictCell(items=kwargs))
        kwargs = {}
    if kwargs:
        return None, f"unexpected keyword {list(kwargs)}"
    for n in names:
        if n not in vals:
            return None, f"missing argument {n}"
    return vals, None


@method
def inline(self, st, node, env, qual, args, kwargs, defaults=(), module=None, cls=None, kwd=None):
    vals, err = self.bind_args(st, node, list(args), kwargs, list(defaults), kwd)
    if vals is None:
        return [(st, Raised(TypeError, err))]
    fid = st.new_frame(vals)
    fr = Fr(fid, env, module, qual.split(":")[-1], cls, node)
    out = []
    has_closure = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)) for n in ast.walk(node) if n is not node)
    for s, ctl in self.block(st, node.body, fr):
        if not has_closure:
            s.frames.pop(fid, None)
        if ctl is None:
            out.append((s, NONE))
        elif ctl[0] == "return":
            out.append((s, ctl[1]))
        elif ctl[0] == "raise":
            out.append((s, ctl[1]))
        else:
            raise Unsupported("break outside loop")
    return out


@method
def construct(self, st, cls, args, kwargs):
    if issubclass(cls, BaseException):
        return [(st, Lazy("exc", exc=Raised(cls, args=args)))]
    if issubclass(cls, enum.Enum):
        return self.enum_lookup(st, cls, args[0])
    if issubclass(cls, dict) and getattr(cls, "__total__", None) is not None or getattr(cls, "__orig_bases__", None) and cls.__module__.startswith("vanillaplusjs") and issubclass(cls, dict):
        return [(st, st.alloc(DictCell(items=dict(kwargs))))]
    if dataclasses.is_dataclass(cls) and cls.__module__.startswith("vanillaplusjs"):
        fields = dataclasses.fields(cls)
        vals = {}
        for f, a in zip(fields, args):
            vals[f.name] = a
        for k, v in kwargs.items():
            vals[k] = v
        for f in fields:
            if f.name not in vals:
                if f.default is not dataclasses.MISSING:
                    vals[f.name] = C(f.default)
                elif f.default_factory is not dataclasses.MISSING:
                    x = f.default_factory()
                    vals[f.name] = st.alloc(ListCell(items=[])) if x == [] else st.alloc(DictCell(items={})) if x == {} else C(x)
                else:
                    return [(st, Raised(TypeError, f"missing {f.name}"))]
        h = getattr(self.contract, "construct_hook", None)
        if h is not None:
            r = h(self, st, cls, vals)
            if r is not None:
                return r
        o = st.alloc(ObjCell(cls, vals))
        if hasattr(cls, "__post_init__"):
            return self.bind(self.call(st, BM(o, "__post_init__"), [], {}), lambda s, v: [(s, o)])
        return [(st, o)]
    if cls.__module__.startswith("vanillaplusjs"):
        o = st.alloc(ObjCell(cls, {}))
        return self.bind(self.call(st, BM(o, "__init__"), args, kwargs), lambda s, v: [(s, o)])
    raise Unsupported(f"construct {cls}")


@method
def enum_lookup(self, st, cls, v):
    t = TEnum(cls)
    if isinstance(v, C):
        try:
            return [(st, C(cls(v.v)))]
        except ValueError as e:
            return [(st, Raised(ValueError, str(e)))]
    if isinstance(v, S) and v.t == t:
        return [(st, v)]
    out = []
    rest = st
    for m in cls:
        if rest is None:
            break
        hit, rest = self.fork(rest, B(self.eq(rest, v, C(m.value))))
        if hit is not None:
            out.append((hit, C(m)))
    if rest is not None:
        out.append((rest, Raised(ValueError)))
    return out


# ------------------------------------------------------------- methods
@method
def call_method(self, st, recv, name, args, kwargs):
    if isinstance(recv, C) and isinstance(recv.v, type) and not issubclass(recv.v, enum.Enum):
        x = inspect.getattr_static(recv.v, name)
        if isinstance(x, classmethod):
            return self.call_py(st, x.__func__, [recv] + list(args), kwargs)
    cls = None
    if isinstance(recv, L) and isinstance(st.heap[recv.lid], ObjCell):
        cls = st.heap[recv.lid].cls
    elif isinstance(recv, S) and isinstance(recv.t, TRef):
        cls = self.refcls.get(recv.t.cname)
    elif isinstance(recv, S) and isinstance(recv.t, TRec) and recv.t.kind == "obj":
        cls = recv.t.pycls
    h = getattr(self.contract, "method_hook", None)
    if h is not None:
        r = h(self, st, recv, name, args, kwargs)
        if r is not None:
            return r
    if cls is not None:
        for k in cls.__mro__:
            if name in vars(k):
                x = vars(k)[name]
                if isinstance(x, classmethod):
                    return self.call_py(st, x.__func__, [C(cls)] + list(args), kwargs)
                if isinstance(x, staticmethod):
                    return self.call_py(st, x.__func__, args, kwargs)
                return self.call_py(st, x, [recv] + list(args), kwargs)
        return [(st, Raised(AttributeError, name))]
    ty = self.shape_ty(st, recv)
    if ty == TStr:
        return self.str_method(st, recv, name, args, kwargs)
    if isinstance(recv, S) and isinstance(recv.t, TEnum):
        pass
    k, c = self.list_get(st, recv)
    if k and not (isinstance(recv, C) and isinstance(recv.v, (frozenset, set))):
        return self.list_method(st, recv, k, c, name, args, kwargs)
    if isinstance(recv, L):
        cell = st.heap[recv.lid]
        if isinstance(cell, DictCell):
            return self.dict_method(st, recv, name, args, kwargs)
        if isinstance(cell, SetCell):
            return self.set_method(st, recv, name, args, kwargs)
    if isinstance(recv, S) and isinstance(recv.t, TMap):
        return self.dict_method(st, st.alloc(DictCell(sym=recv)), name, args, kwargs)
    if isinstance(recv, S) and isinstance(recv.t, TRec) and recv.t.kind == "dict":
        if name == "get":
            f = args[0].v
            dflt = args[1] if len(args) > 1 else NONE
            if f not in recv.t.fields:
                return [(st, dflt)]
            ft = recv.t.fields[f]
            e = recv.t.get(recv.e, f)
            if f in recv.t.absent:
                out = []
                for s, x in self.force(st, S(ft, e)):
                    out.append((s, dflt if _isnone(x) else x))
                return out
            return self.force(st, self.wrap(st, e, ft))
    if isinstance(recv, C) and isinstance(recv.v, dict):
        if name in ("get", "items", "keys", "values") and all(isinstance(a, C) for a in args):
            x = getattr(recv.v, name)(*[a.v for a in args])
            if name == "get":
                return [(st, C(x))]
            return [(st, Tup([C(y) for y in x]))]
    if isinstance(recv, C) and not isinstance(recv.v, (list, dict, set)) and all(isinstance(a, C) for a in args) and not kwargs:
        try:
            return [(st, C(getattr(recv.v, name)(*[a.v for a in args])))]
        except Exception as e:
            return [(st, Raised(type(e), str(e)))]
    if _isnone(recv):
        return [(st, Raised(AttributeError, f"None.{name}"))]
    raise Unsupported(f"method {name} of {recv}")


@method
def list_method(self, st, recv, k, c, name, args, kwargs):
    if name == "append":
        x = args[0]
        if k == "items":
            self.list_set(st, recv, items=list(c) + [x])
        else:
            xe = self.embed(st, x, c.t.t)
            r = self.bag_append(st, c.t, c.e, xe) if isinstance(c.t, TBag) else z3.Concat(c.e, z3.Unit(xe))
            self.list_set(st, recv, seq=S(c.t, r))
        return [(st, NONE)]
    if name == "clear":
        if isinstance(recv, FL):
            t, _ = st.fields[(recv.cname, recv.field)]
            self.list_set(st, recv, seq=S(t, t.fns()[6] if isinstance(t, TBag) else z3.Empty(t.sort())))
        else:
            self.list_set(st, recv, items=[])
        return [(st, NONE)]
    if name == "copy":
        return [(st, st.alloc(ListCell(items=list(c)) if k == "items" else ListCell(seq=c)))]
    if name == "extend":
        out = []
        for s, it in self.iterate(st, args[0]):
            if isinstance(it, Raised):
                out.append((s, it))
                continue
            k2, c2 = self.list_get(s, recv)
            if isinstance(it, list):
                if k2 == "items":
                    self.list_set(s, recv, items=list(c2) + list(it))
                    out.append((s, NONE))
                else:
                    cur = [(s, NONE)]
                    for x in it:
                        cur = self.bind(cur, lambda s2, _: self.list_method(s2, recv, *self.list_get(s2, recv), "append", [x], {}))
                    out += cur
            else:
                if isinstance(it.base, S) and isinstance(it.base.t, TSeq):
                    out += self.bind(self.binop_r(s, "+", s.alloc(ListCell(items=c2) if k2 == "items" else ListCell(seq=c2)), s.alloc(ListCell(seq=it.base))), lambda s2, v: self._set_from(s2, recv, v))
                elif isinstance(it.base, S) and isinstance(it.base.t, TBag):
                    t = it.base.t
                    cur = self.embed(s, s.alloc(ListCell(items=c2)) if k2 == "items" else c2, t)
                    self.list_set(s, recv, seq=S(t, self.bag_concat(s, t, cur, it.base.e)))
                    out.append((s, NONE))
                else:
                    raise Unsupported("extend with symbolic iterable")
        return out
    if name == "pop":
        i = args[0] if args else C(-1)
        if k == "items":
            if not c:
                return [(st, Raised(IndexError, "pop from empty list"))]
            if isinstance(i, C):
                items = list(c)
                try:
                    x = items.pop(i.v)
                except IndexError:
                    return [(st, Raised(IndexError))]
                self.list_set(st, recv, items=items)
                return self.force(st, x)
            raise Unsupported("pop symbolic index")
        if isinstance(c.t, TBag):
            return self.bag_pop(st, recv, c, i)
        out = []
        ln = z3.Length(c.e)
        for s, idx in self.norm_index(st, i, ln):
            if idx is None:
                out.append((s, Raised(IndexError, "pop")))
                continue
            x = self.seq_at(s, c, idx)
            if isinstance(i, C) and i.v == 0:
                r = z3.SubSeq(c.e, 1, ln - 1)
                s.assume(c.e == z3.Concat(z3.Unit(c.e[0]), r))
            elif isinstance(i, C) and i.v == -1:
                r = z3.SubSeq(c.e, 0, ln - 1)
                s.assume(c.e == z3.Concat(r, z3.Unit(c.e[ln - 1])))
            else:
                r = z3.Concat(z3.SubSeq(c.e, 0, idx), z3.SubSeq(c.e, idx + 1, ln - idx - 1))
            self.list_set(s, recv, seq=S(c.t, r))
            out += self.force(s, x)
        return out
    if name == "remove":
        x = args[0]
        if k == "items":
            out = []
            rest = st
            for i, y in enumerate(c):
                if rest is None:
                    break
                hit, rest = self.fork(rest, B(self.eq(rest, x, y)))
                if hit is not None:
                    self.list_set(hit, recv, items=[z for j, z in enumerate(c) if j != i])
                    out.append((hit, NONE))
            if rest is not None:
                out.append((rest, Raised(ValueError, "list.remove(x): x not in list")))
            return out
        xe = self.embed(st, x, c.t.t)
        if isinstance(c.t, TBag):
            ln, at, bag, *_ = c.t.fns()
            ok, bad = self.fork(st, z3.Select(bag(c.e), xe) > 0)
            out = []
            if ok is not None:
                r = c.t.fresh("rem")
                p = z3.Int(fresh_name("p"))
                j = z3.Int("j")
                ok.assume(
                    ln(r) == ln(c.e) - 1, 0 <= p, p < ln(c.e), at(c.e, p) == xe,
                    z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p), at(r, j) == at(c.e, j)), patterns=[at(r, j)]),
                    z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p), at(c.e, j) != xe), patterns=[at(c.e, j)]),
                    z3.ForAll([j], z3.Implies(z3.And(p <= j, j < ln(r)), at(r, j) == at(c.e, j + 1)), patterns=[at(r, j)]),
                    bag(r) == z3.Store(bag(c.e), xe, z3.Select(bag(c.e), xe) - 1),
                )
                self.list_set(ok, recv, seq=S(c.t, r))
                out.append((ok, NONE))
            if bad is not None:
                out.append((bad, Raised(ValueError, "list.remove(x): x not in list")))
            return out
        ok, bad = self.fork(st, z3.Contains(c.e, z3.Unit(xe)))
        out = []
        if ok is not None:
            u, v = c.t.fresh("u"), c.t.fresh("v")
            ok.assume(c.e == z3.Concat(u, z3.Unit(xe), v), z3.Not(z3.Contains(u, z3.Unit(xe))))
            self.list_set(ok, recv, seq=S(c.t, z3.Concat(u, v)))
            out.append((ok, NONE))
        if bad is not None:
            out.append((bad, Raised(ValueError)))
        return out
    if name == "insert" and isinstance(args[0], C) and args[0].v == 0:
        x = args[1]
        if k == "items":
            self.list_set(st, recv, items=[x] + list(c))
        else:
            self.list_set(st, recv, seq=S(c.t, z3.Concat(z3.Unit(self.embed(st, x, c.t.t)), c.e)))
        return [(st, NONE)]
    if name == "index" and k == "items":
        raise Unsupported("list.index")
    if name == "count":
        raise Unsupported("list.count")
    raise Unsupported(f"list.{name}")


@method
def _set_from(self, st, recv, v):
    k, c = self.list_get(st, v)
    self.list_set(st, recv, items=list(c) if k == "items" else None, seq=c if k == "seq" else None)
    return [(st, NONE)]


@method
def bag_pop(self, st, recv, c, i):
    t = c.t
    ln, at, bag, *_ = t.fns()
    if not isinstance(i, C) or i.v not in (0, -1):
        raise Unsupported("bag pop")
    ok, bad = self.fork(st, ln(c.e) > 0)
    out = []
    if ok is not None:
        r = t.fresh("pop")
        j = z3.Int("j")
        sh = 1 if i.v == 0 else 0
        x = at(c.e, 0 if i.v == 0 else ln(c.e) - 1)
        ok.assume(
            ln(r) == ln(c.e) - 1,
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln(r)), at(r, j) == at(c.e, j + sh)), patterns=[at(r, j)]),
            bag(r) == z3.Store(bag(c.e), x, z3.Select(bag(c.e), x) - 1),
            z3.Select(bag(c.e), x) >= 1,
        )
        self.list_set(ok, recv, seq=S(t, r))
        out += self.force(ok, self.wrap(ok, x, t.t))
    if bad is not None:
        out.append((bad, Raised(IndexError)))
    return out


@method
def dict_method(self, st, recv, name, args, kwargs):
    cell = st.heap[recv.lid]
    if name == "get":
        dflt = args[1] if len(args) > 1 else NONE
        out = []
        for s, v in self.getitem(st, recv, args[0]):
            if isinstance(v, Raised) and v.cls is KeyError:
                out.append((s, dflt))
            elif isinstance(v, Raised):
                out.append((s, v))
            else:
                out += self.force(s, v)
        return out
    if name in ("items", "keys", "values"):
        return [(st, Lazy(name, d=recv))]
    if name == "copy":
        return [(st, st.alloc(DictCell(items=dict(cell.items) if cell.items is not None else None, sym=cell.sym)))]
    if name == "clear":
        st.heap[recv.lid] = DictCell(items={})
        return [(st, NONE)]
    if name == "pop":
        out = []
        for s, v in self.getitem(st, recv, args[0]):
            if isinstance(v, Raised):
                out.append((s, args[1] if len(args) > 1 and v.cls is KeyError else v))
            else:
                out += [(s2, v) for s2, r in self.delitem(s, recv, args[0]) if not isinstance(r, Raised)]
        return out
    if name == "setdefault":
        out = []
        for s, v in self.getitem(st, recv, args[0]):
            if isinstance(v, Raised):
                out += [(s2, args[1]) for s2, r in self.setitem(s, recv, args[0], args[1])]
            else:
                out.append((s, v))
        return out
    if name == "update" and len(args) == 1 and isinstance(args[0], L):
        c2 = st.heap[args[0].lid]
        if c2.items is not None:
            acc = [(st, NONE)]
            for kk, x in c2.items.items():
                acc = self.bind(acc, lambda s, _: [(s2, NONE) for s2, r in self.setitem(s, recv, C(kk), x)])
            return acc
        return [(st, NONE) for _ in [self.dict_update(st, recv, c2)]]
    raise Unsupported(f"dict.{name}")


@method
def dict_update(self, st, recv, c2):
    """recv takes over the entries of the dictionary c2 (a cell)."""
    if c2.items is not None:
        for k, x in c2.items.items():
            self.setitem(st, recv, C(k), x)
        return
    cell = st.heap[recv.lid]
    if cell.items is not None and not cell.items:
        st.heap[recv.lid] = DictCell(sym=c2.sym)
        return
    t = cell.sym.t if cell.sym is not None else c2.sym.t
    if t != c2.sym.t:
        raise Unsupported("update of a dictionary of another type")
    a, b = self.embed(st, recv, t), c2.sym.e
    r = t.fresh("merged")
    x = t.k.fresh("k")
    ha, hb, hr = (z3.Select(t.has(m), x) for m in (a, b, r))
    pats = [hr] + [h for h in (ha, hb) if not has_ite(h)]
    st.assume(z3.ForAll([x], hr == z3.Or(ha, hb), patterns=pats))
    st.assume(z3.ForAll([x], z3.Select(t.get(r), x) == z3.If(hb, z3.Select(t.get(b), x), z3.Select(t.get(a), x)), patterns=[z3.Select(t.get(r), x)]))
    st.heap[recv.lid] = DictCell(sym=S(t, r))


@method
def set_method(self, st, recv, name, args, kwargs):
    cell = st.heap[recv.lid]

    def upd(s, c):
        s.heap[recv.lid] = c
    if name == "add":
        if cell.items is not None:
            if isinstance(args[0], C) and any(isinstance(x, C) and type(x.v) is type(args[0].v) and x.v == args[0].v for x in cell.items):
                return [(st, NONE)]
            if any(self.same_value(x, args[0]) for x in cell.items):
                return [(st, NONE)]
            upd(st, SetCell(items=list(cell.items) + [args[0]]))
        else:
            t = cell.sym.t
            upd(st, SetCell(sym=S(t, z3.Store(cell.sym.e, self.embed(st, args[0], t.t), z3.BoolVal(True)))))
        return [(st, NONE)]
    if name in ("remove", "discard"):
        out = []
        for s, v in self.contains(st, recv, args[0]):
            a, b = self.fork(s, self.truth(s, v))
            if a is not None:
                c = a.heap[recv.lid]
                if c.items is not None:
                    if all(isinstance(x, C) for x in c.items) and isinstance(args[0], C):
                        a.heap[recv.lid] = SetCell(items=[x for x in c.items if x.v != args[0].v])
                    else:
                        t = self.shape_ty(a, recv)
                        a.heap[recv.lid] = SetCell(sym=S(t, z3.Store(self.embed(a, recv, t), self.embed(a, args[0], t.t), z3.BoolVal(False))))
                else:
                    t = c.sym.t
                    a.heap[recv.lid] = SetCell(sym=S(t, z3.Store(c.sym.e, self.embed(a, args[0], t.t), z3.BoolVal(False))))
                out.append((a, NONE))
            if b is not None:
                out.append((b, NONE if name == "discard" else Raised(KeyError)))
        return out
    if name == "copy":
        return [(st, st.alloc(SetCell(items=list(cell.items) if cell.items is not None else None, sym=cell.sym)))]
    if name == "clear":
        upd(st, SetCell(items=[]))
        return [(st, NONE)]
    if name in ("union", "intersection", "difference"):
        op = {"union": "|", "intersection": "&", "difference": "-"}[name]
        acc = [(st, recv)]
        for a in args:
            acc = self.bind(acc, lambda s, v: self.bind(self.to_set(s, a), lambda s2, w: self.set_binop(s2, op, v, w)))
        return acc
    if name in ("update", "difference_update"):
        def up(s, w):
            c = s.heap[recv.lid]
            cw = s.heap[w.lid]
            if name == "update" and c.items is not None and cw.items is not None:
                items = list(c.items)
                for x in cw.items:
                    if not any(self.same_value(x, y) for y in items):
                        items.append(x)
                s.heap[recv.lid] = SetCell(items=items)
                return [(s, NONE)]
            if cw.items == []:
                return [(s, NONE)]
            if c.items == []:
                if name == "update":
                    s.heap[recv.lid] = SetCell(sym=cw.sym)
                return [(s, NONE)]
            def fin(s2, v):
                s2.heap[recv.lid] = s2.heap[v.lid]
                return [(s2, NONE)]
            return self.bind(self.set_binop(s, "|" if name == "update" else "-", recv, w), fin)
        return self.bind(self.to_set(st, args[0]), up)
    if name == "pop":
        # an arbitrary element
        t = self.shape_ty(st, recv)
        if t is None:
            return [(st, Raised(KeyError, "pop from an empty set"))]
        e = self.embed(st, recv, t)
        a, b = self.fork(st, e != z3.K(t.t.sort(), z3.BoolVal(False)))
        out = []
        if a is not None:
            x = t.t.fresh("popped")
            a.assume(z3.Select(e, x))
            a.heap[recv.lid] = SetCell(sym=S(t, z3.Store(e, x, z3.BoolVal(False))))
            out += self.force(a, self.wrap(a, x, t.t))
        if b is not None:
            out.append((b, Raised(KeyError)))
        return out
    if name == "issubset":
        return self.bind(self.to_set(st, args[0]), lambda s, w: self.compare(s, ast.LtE(), recv, w))
    raise Unsupported(f"set.{name}")


@method
def to_set(self, st, v):
    if isinstance(v, L) and isinstance(st.heap[v.lid], SetCell):
        return [(st, v)]
    out = []
    if isinstance(v, L) and isinstance(st.heap[v.lid], DictCell) and st.heap[v.lid].sym is not None:
        t = st.heap[v.lid].sym.t
        return [(st, st.alloc(SetCell(sym=S(TSet(t.k), t.has(st.heap[v.lid].sym.e)))))]
    if isinstance(v, Lazy) and v.kind == "keys" and st.heap[v.d.lid].sym is not None:
        return self.to_set(st, v.d)
    for s, it in self.iterate(st, v):
        if isinstance(it, Raised):
            out.append((s, it))
        elif isinstance(it, list):
            out.append((s, self.make_set(s, it)))
        else:
            b = it.base
            ty = self.shape_ty(s, it.elem(s, z3.Int("j!s")))
            st_ = TSet(ty)
            arr = st_.fresh("toset")
            x = z3.Const("x!s", ty.sort())
            j = z3.Int("j!s")
            if isinstance(b, S) and isinstance(b.t, TBag) and b.t.t == ty:
                s.assume(z3.ForAll([x], z3.Select(arr, x) == (z3.Select(b.t.fns()[2](b.e), x) > 0), patterns=[z3.Select(arr, x)]))
                s.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < it.length), z3.Select(arr, b.t.fns()[1](b.e, j))), patterns=[b.t.fns()[1](b.e, j)]))
            elif isinstance(b, S) and isinstance(b.t, TSeq):
                s.assume(z3.ForAll([x], z3.Select(arr, x) == z3.Contains(b.e, z3.Unit(x)), patterns=[z3.Select(arr, x)]))
            else:
                raise Unsupported("set() of symbolic iterable")
            out.append((s, s.alloc(SetCell(sym=S(st_, arr)))))
    return out


# ------------------------------------------------------------- strings
WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"


@method
def str_method(self, st, recv, name, args, kwargs):
    if isinstance(recv, C) and all(isinstance(a, C) for a in args) and all(isinstance(a, C) for a in kwargs.values()) and not isinstance(recv.v, enum.Enum):
        if name in ("join", "encode", "format") and not all(isinstance(a, C) for a in args):
            pass
        else:
            try:
                x = getattr(recv.v, name)(*[a.v for a in args], **{k: a.v for k, a in kwargs.items()})
                return [(st, self.import_list(st, x))]
            except Exception as e:
                return [(st, Raised(type(e), str(e)))]
    h = getattr(self.contract, "str_hook", None)
    if h is not None:
        r = h(self, st, recv, name, args, kwargs)
        if r is not None:
            return r
    if name == "join":
        return self.str_join(st, recv, args[0])
    e = self.embed(st, recv, TStr)

    def strs(v):
        if isinstance(v, C) and isinstance(v.v, tuple):
            return [lift(x, TStr) for x in v.v]
        if isinstance(v, Tup):
            return [self.embed(st, x, TStr) for x in v.items]
        return [self.embed(st, v, TStr)]
    if name == "startswith" and len(args) == 1:
        return [(st, self.wrap(st, z3.simplify(_or([z3.PrefixOf(x, e) for x in strs(args[0])])), TBool))]
    if name == "endswith" and len(args) == 1:
        return [(st, self.wrap(st, z3.simplify(_or([z3.SuffixOf(x, e) for x in strs(args[0])])), TBool))]
    if name == "replace" and len(args) == 2:
        f = z3.Function("str_replace_all", *[z3.StringSort()] * 4)
        a, b = self.embed(st, args[0], TStr), self.embed(st, args[1], TStr)
        r = f(e, a, b)
        st.assume(z3.Implies(z3.And(z3.Not(z3.Contains(e, a)), a != z3.StringVal("")), r == e))
        st.assume(z3.Implies(a == b, r == e))
        return [(st, S(TStr, r))]
    if name == "find" and len(args) == 1:
        return [(st, S(TInt, z3.IndexOf(e, self.embed(st, args[0], TStr), 0)))]
    if name == "index" and len(args) == 1:
        a = self.embed(st, args[0], TStr)
        ok, bad = self.fork(st, z3.Contains(e, a))
        out = []
        if ok is not None:
            out.append((ok, S(TInt, z3.IndexOf(e, a, 0))))
        if bad is not None:
            out.append((bad, Raised(ValueError)))
        return out
    if name in ("strip", "lstrip", "rstrip"):
        chars = args[0].v if args and isinstance(args[0], C) and args[0].v is not None else None
        if args and chars is None and not (isinstance(args[0], C)):
            raise Unsupported("strip with symbolic chars")
        f = z3.Function(f"str_{name}_{'ws' if chars is None else ''.join('%x_' % ord(c) for c in chars)}", z3.StringSort(), z3.StringSort())
        r = f(e)
        pre, suf = z3.String(fresh_name("pre")), z3.String(fresh_name("suf"))
        cs = WS if chars is None else chars
        re_ = z3.Star(z3.Union(*[z3.Re(strval(c)) for c in cs])) if len(cs) > 1 else z3.Star(z3.Re(strval(cs)))
        inset = lambda x: _or([x == strval(c) for c in cs])
        parts = []
        if name != "rstrip":
            parts.append(z3.InRe(pre, re_))
            parts.append(z3.Implies(z3.Length(r) > 0, z3.Not(inset(z3.SubString(r, 0, 1)))))
        else:
            parts.append(pre == z3.StringVal(""))
        if name != "lstrip":
            parts.append(z3.InRe(suf, re_))
            parts.append(z3.Implies(z3.Length(r) > 0, z3.Not(inset(z3.SubString(r, z3.Length(r) - 1, 1)))))
        else:
            parts.append(suf == z3.StringVal(""))
        st.assume(e == z3.Concat(pre, r, suf), *parts)
        return [(st, S(TStr, r))]
    if name in ("lower", "upper", "casefold", "title"):
        f = z3.Function("str_" + name, z3.StringSort(), z3.StringSort())
        return [(st, S(TStr, f(e)))]
    if name in ("isdigit", "isalpha", "isalnum", "isspace", "isnumeric", "isdecimal", "isupper", "islower", "isidentifier", "isprintable"):
        f = z3.Function("str_" + name, z3.StringSort(), z3.BoolSort())
        r = f(e)
        st.assume(z3.Not(f(z3.StringVal(""))))
        # exact on single ASCII characters
        yes = [chr(i) for i in range(128) if getattr(chr(i), name)()]
        code = z3.StrToCode(e)
        st.assume(z3.Implies(z3.And(z3.Length(e) == 1, code < 128), r == ranges_formula(code, [ord(c) for c in yes])))
        return [(st, S(TBool, r))]
    if name == "split" or name == "rsplit":
        return self.str_split(st, recv, e, name, args, kwargs)
    if name == "count":
        f = z3.Function("str_count", z3.StringSort(), z3.StringSort(), z3.IntSort())
        r = f(e, self.embed(st, args[0], TStr))
        st.assume(r >= 0)
        return [(st, S(TInt, r))]
    if name == "encode":
        t = TU("bytes")
        f = z3.Function("encode", z3.StringSort(), t.sort())
        return [(st, S(t, f(e)))]
    if name == "format":
        return [(st, S(TStr, TStr.fresh("fmt")))]
    raise Unsupported(f"str.{name}")


def ranges_formula(code, codes):
    codes = sorted(codes)
    rs, i = [], 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        rs.append(z3.And(code >= codes[i], code <= codes[j]) if j > i else code == codes[i])
        i = j + 1
    return _or(rs)


@method
def import_list(self, st, x):
    if isinstance(x, list):
        return st.alloc(ListCell(items=[self.import_list(st, y) for y in x]))
    if isinstance(x, tuple):
        return C(x)
    return C(x)


@method
def str_split(self, st, recv, e, name, args, kwargs):
    sep = args[0] if args else kwargs.get("sep", NONE)
    mx = args[1] if len(args) > 1 else kwargs.get("maxsplit", C(-1))
    if isinstance(mx, C) and mx.v == 1 and isinstance(sep, C) and sep.v and name == "split":
        se = lift(sep.v, TStr)
        a, b = self.fork(st, z3.Contains(e, se))
        out = []
        if a is not None:
            i = z3.IndexOf(e, se, 0)
            h, t = z3.String(fresh_name("head")), z3.String(fresh_name("tail"))
            a.assume(e == z3.Concat(h, se, t), z3.Not(z3.Contains(h, se)) if len(sep.v) == 1 else z3.Length(h) == i)
            out.append((a, a.alloc(ListCell(items=[S(TStr, h), S(TStr, t)]))))
        if b is not None:
            out.append((b, b.alloc(ListCell(items=[self.wrap(b, e, TStr)]))))
        return out
    t = TSeq(TStr)
    f = z3.Function("str_split_" + (repr(sep.v) if isinstance(sep, C) else "sym"), z3.StringSort(), t.sort())
    if not isinstance(sep, C) or not (isinstance(mx, C) and mx.v == -1):
        raise Unsupported("split form")
    r = f(e)
    if sep.v is not None:
        st.assume(z3.Length(r) >= 1)
    return [(st, st.alloc(ListCell(seq=S(t, r))))]


@method
def str_join(self, st, sep, src):
    out = []
    for s, it in self.iterate(st, src):
        if isinstance(it, Raised):
            out.append((s, it))
        elif isinstance(it, list):
            r = C("")
            for i, x in enumerate(it):
                if i:
                    r = self.strcat(s, r, sep)
                r = self.strcat(s, r, x)
            out.append((s, r))
        elif isinstance(it.base, S) and isinstance(it.base.t, TSeq) and it.base.t.t == TStr:
            f = z3.Function("str_join", z3.StringSort(), it.base.t.sort(), z3.StringSort())
            out.append((s, S(TStr, f(self.embed(s, sep, TStr), it.base.e))))
        else:
            raise Unsupported("join of symbolic iterable")
    return out


# ------------------------------------------------------------- builtins
def b_len(E, st, args, kw):
    v = args[0]
    if isinstance(v, C) and v.v is None:
        return [(st, Raised(TypeError, "len(None)"))]
    if isinstance(v, C):
        try:
            return [(st, C(len(v.v)))]
        except TypeError as e:
            return [(st, Raised(TypeError, str(e)))]
    k, c = E.list_get(st, v)
    if k == "items":
        return [(st, C(len(c)))]
    if k == "seq":
        return [(st, E.wrap(st, E.seq_len(c), TInt))]
    if isinstance(v, S) and v.t == TStr:
        return [(st, E.wrap(st, z3.simplify(z3.Length(v.e)), TInt))]
    if isinstance(v, L):
        cell = st.heap[v.lid]
        if isinstance(cell, DictCell) and cell.items is not None:
            return [(st, C(len(cell.items)))]
        if isinstance(cell, SetCell) and cell.items is not None and len(cell.items) <= 1:
            return [(st, C(len(cell.items)))]
        if isinstance(cell, (DictCell, SetCell)):
            t = E.shape_ty(st, v)
            arr = t.has(cell.sym.e) if isinstance(t, TMap) else E.embed(st, v, t)
            f = z3.Function("card_" + t.nm(), arr.sort(), z3.IntSort())
            K0 = z3.K(arr.sort().domain(), z3.BoolVal(False))
            st.assume(f(arr) >= 0, (f(arr) == 0) == (arr == K0))
            return [(st, S(TInt, f(arr)))]
        if isinstance(cell, ObjCell):
            return E.call(st, BM(v, "__len__"), [], {})
    raise Unsupported(f"len of {v}")


def b_any(E, st, args, kw):
    return E.quant(st, args[0], None, True)


def b_all(E, st, args, kw):
    return E.quant(st, args[0], None, False)


def b_isinstance(E, st, args, kw):
    v, c = args
    classes = c.v if isinstance(c, C) and isinstance(c.v, tuple) else (c.v,) if isinstance(c, C) else tuple(x.v for x in c.items)
    if isinstance(v, C):
        return [(st, C(isinstance(v.v, classes)))]
    py = None
    if isinstance(v, S):
        py = {TInt: int, TBool: bool, TReal: float, TStr: str}.get(v.t) if isinstance(v.t, (TInt_, TBool_, TReal_, TStr_)) else None
        if isinstance(v.t, TEnum):
            py = v.t.cls
        if isinstance(v.t, TRef):
            py = E.refcls.get(v.t.cname)
        if isinstance(v.t, TRec):
            py = dict if v.t.kind == "dict" else v.t.pycls
        if isinstance(v.t, (TSeq, TBag)):
            py = list
        if isinstance(v.t, TMap):
            py = dict
    elif isinstance(v, Tup):
        py = tuple
    elif isinstance(v, FL):
        py = list
    elif isinstance(v, L):
        cell = st.heap[v.lid]
        py = {ListCell: list, DictCell: dict, SetCell: set}.get(type(cell)) or cell.cls
    elif isinstance(v, Lazy) and v.kind == "exc":
        py = v.exc.cls
    if py is None:
        h = getattr(E.contract, "isinstance_hook", None)
        r = h and h(E, st, v, classes)
        if r is not None:
            return [(st, S(TBool, r))] if not isinstance(r, bool) else [(st, C(r))]
        raise Unsupported(f"isinstance of {v}")
    return [(st, C(issubclass(py, classes)))]


def b_list(E, st, args, kw):
    if not args:
        return [(st, st.alloc(ListCell(items=[])))]
    out = []
    for s, it in E.iterate(st, args[0]):
        if isinstance(it, Raised):
            out.append((s, it))
        elif isinstance(it, list):
            out.append((s, s.alloc(ListCell(items=list(it)))))
        elif isinstance(it.base, S) and isinstance(it.base.t, (TSeq, TBag)) and not isinstance(args[0], Lazy) or isinstance(args[0], Lazy) and args[0].kind in ("keys", "genexp"):
            out.append((s, s.alloc(ListCell(seq=it.base))))
        elif isinstance(it.base, S) and it.base.t == TStr:
            t = TSeq(TStr)
            f = z3.Function("str_chars", z3.StringSort(), t.sort())
            out.append((s, s.alloc(ListCell(seq=S(t, f(it.base.e))))))
        else:
            x = it.elem(s, z3.Int("j!l"))
            ty = E.shape_ty(s, x)
            t = TBag(ty) if it.bag is not None else TSeq(ty)
            if isinstance(t, TBag):
                E.use_bag(t)
            r = t.fresh("list")
            j = z3.Int("j!l")
            rs = S(t, r)
            at = t.fns()[1](r, j) if isinstance(t, TBag) else r[j]
            s.assume(E.seq_len(rs) == it.length, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < it.length), at == E.embed(s, x, ty)), patterns=[at] if isinstance(t, TBag) else []))
            out.append((s, s.alloc(ListCell(seq=rs))))
    return out


def b_tuple(E, st, args, kw):
    if not args:
        return [(st, C(()))]
    return E.bind(b_list(E, st, args, kw), lambda s, v: [(s, Tup(s.heap[v.lid].items) if s.heap[v.lid].items is not None else s.heap[v.lid].seq)])


def b_set(E, st, args, kw):
    if not args:
        return [(st, st.alloc(SetCell(items=[])))]
    def cp(s, v):
        c = s.heap[v.lid]
        return [(s, s.alloc(SetCell(items=list(c.items) if c.items is not None else None, sym=c.sym)))]
    return E.bind(E.to_set(st, args[0]), cp)


def b_dict(E, st, args, kw):
    if not args:
        return [(st, st.alloc(DictCell(items=dict(kw))))]
    out = []
    v = args[0]
    if isinstance(v, L) and isinstance(st.heap[v.lid], DictCell):
        c = st.heap[v.lid]
        return [(st, st.alloc(DictCell(items=dict(c.items) if c.items is not None else None, sym=c.sym)))]
    h = getattr(E.contract, "dict_hook", None)
    if h is not None:
        r = h(E, st, v)
        if r is not None:
            return r
    for s, it in E.iterate(st, v):
        if isinstance(it, Raised):
            out.append((s, it))
        elif isinstance(it, list):
            pairs = []
            for x in it:
                [(s, p)] = E.iterate(s, x)
                pairs.append((p[0], p[1]))
            out += E.make_dict(s, pairs)
        elif isinstance(it.base, S) and isinstance(getattr(it.base.t, "t", None), TTup) and len(it.base.t.t.ts) == 2:
            out.append((s, E.dict_of_pairs(s, it.base)))
        else:
            raise Unsupported("dict() of symbolic iterable")
    return out


def b_str(E, st, args, kw):
    if not args:
        return [(st, C(""))]
    v = args[0]
    if isinstance(v, C):
        return [(st, C(str(v.v)))]
    return [(st, E.to_str(st, v))]


def b_int(E, st, args, kw):
    v = args[0] if args else C(0)
    if isinstance(v, C) and all(isinstance(a, C) for a in args):
        try:
            return [(st, C(int(*[a.v for a in args])))]
        except Exception as e:
            return [(st, Raised(type(e), str(e)))]
    if isinstance(v, S) and v.t == TReal:
        return [(st, S(TInt, z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e))))]
    if isinstance(v, S) and v.t == TInt:
        return [(st, v)]
    if isinstance(v, S) and v.t == TBool:
        return [(st, S(TInt, z3.If(v.e, z3.IntVal(1), z3.IntVal(0))))]
    if isinstance(v, S) and v.t == TStr:
        base = args[1].v if len(args) > 1 else kw["base"].v if "base" in kw else 10
        ok = z3.Function(f"int_ok_{base}", z3.StringSort(), z3.BoolSort())
        val = z3.Function(f"int_val_{base}", z3.StringSort(), z3.IntSort())
        a, b = E.fork(st, ok(v.e))
        out = []
        if a is not None:
            out.append((a, S(TInt, val(v.e))))
        if b is not None:
            out.append((b, Raised(ValueError, "invalid literal for int()")))
        return out
    if isinstance(v, (L, Tup, Fn)) or _isnone(v):
        return [(st, Raised(TypeError))]
    raise Unsupported("int()")


def b_float(E, st, args, kw):
    v = args[0]
    if isinstance(v, C):
        try:
            return [(st, C(float(v.v)))]
        except Exception as e:
            return [(st, Raised(type(e), str(e)))]
    if isinstance(v, S) and v.t in (TInt, TReal):
        return [(st, S(TReal, E.embed(st, v, TReal)))]
    if isinstance(v, S) and v.t == TStr:
        ok = z3.Function("float_ok", z3.StringSort(), z3.BoolSort())
        val = z3.Function("float_val", z3.StringSort(), z3.RealSort())
        a, b = E.fork(st, ok(v.e))
        out = []
        if a is not None:
            out.append((a, S(TReal, val(v.e))))
        if b is not None:
            out.append((b, Raised(ValueError)))
        return out
    raise Unsupported("float()")


def b_decimal(E, st, args, kw):
    v = args[0]
    if isinstance(v, C) and isinstance(v.v, (int, float, decimal.Decimal)):
        return [(st, S(TReal, lift(float(v.v), TReal)) if not isinstance(v.v, decimal.Decimal) else v)]
    if isinstance(v, S) and v.t in (TInt, TReal):
        return [(st, S(TReal, E.embed(st, v, TReal)))]
    raise Unsupported("Decimal()")


def b_round(E, st, args, kw):
    v = args[0]
    if isinstance(v, C) and all(isinstance(a, C) for a in args):
        return [(st, C(round(*[a.v for a in args])))]
    if len(args) == 1 and isinstance(v, S) and v.t == TReal:
        n = z3.Int(fresh_name("round"))
        d = v.e - z3.ToReal(n)
        half = z3.RealVal("1/2")
        # ties go to even: |d| < 1/2, or |d| = 1/2 and n even
        st.assume(d <= half, d >= -half, z3.Implies(z3.Or(d == half, d == -half), n % 2 == 0))
        return [(st, S(TInt, n))]
    raise Unsupported("round()")


def b_abs(E, st, args, kw):
    v = args[0]
    if isinstance(v, C):
        return [(st, C(abs(v.v)))]
    return [(st, S(v.t, z3.If(v.e >= 0, v.e, -v.e)))]


def _minmax(is_min):
    def f(E, st, args, kw):
        if kw:
            raise Unsupported("min/max key")
        if len(args) == 1:
            [(st, it)] = E.iterate(st, args[0])
            if not isinstance(it, list):
                raise Unsupported("min/max of symbolic sequence")
            args = it
            if not args:
                return [(st, Raised(ValueError))]
        if all(isinstance(a, C) for a in args):
            return [(st, C((min if is_min else max)(*[a.v for a in args])))] if len(args) > 1 else [(st, args[0])]
        t = E.join_tys([E.shape_ty(st, a) for a in args])
        if t not in (TInt, TReal):
            raise Unsupported("min/max types")
        e = E.embed(st, args[0], t)
        for a in args[1:]:
            x = E.embed(st, a, t)
            e = z3.If(x < e, x, e) if is_min else z3.If(x > e, x, e)
        return [(st, S(t, e))]
    return f


def b_ord(E, st, args, kw):
    v = args[0]
    if isinstance(v, C):
        try:
            return [(st, C(ord(v.v)))]
        except TypeError as e:
            return [(st, Raised(TypeError, str(e)))]
    a, b = E.fork(st, z3.Length(v.e) == 1)
    out = []
    if a is not None:
        out.append((a, S(TInt, z3.StrToCode(v.e))))
    if b is not None:
        out.append((b, Raised(TypeError, "ord() expected a character")))
    return out


def b_chr(E, st, args, kw):
    v = args[0]
    if isinstance(v, C):
        try:
            return [(st, C(chr(v.v)))]
        except Exception as e:
            return [(st, Raised(type(e), str(e)))]
    a, b = E.fork(st, z3.And(v.e >= 0, v.e <= 0x10FFFF))
    out = []
    if a is not None:
        out.append((a, S(TStr, z3.StrFromCode(v.e))))
    if b is not None:
        out.append((b, Raised(ValueError)))
    return out


def b_bool(E, st, args, kw):
    t = E.truth(st, args[0]) if args else False
    return [(st, C(t) if isinstance(t, bool) else S(TBool, t))]


def b_hex(E, st, args, kw):
    v = args[0]
    if isinstance(v, C):
        return [(st, C(hex(v.v)))]
    f = z3.Function("hex_digits", z3.IntSort(), z3.StringSort())
    return [(st, S(TStr, z3.Concat(z3.StringVal("0x"), f(v.e))))]


def b_type(E, st, args, kw):
    v = args[0]
    if isinstance(v, C):
        return [(st, C(type(v.v)))]
    return [(st, C(object))]


def b_range(E, st, args, kw):
    a, b, step = (C(0), args[0], C(1)) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else C(1))
    return [(st, Lazy("range", a=a, b=b, step=step))]


def b_sorted(E, st, args, kw):
    out = []
    for s, it in E.iterate(st, args[0]):
        if isinstance(it, Raised):
            out.append((s, it))
        elif isinstance(it, list) and all(isinstance(x, C) for x in it) and not kw:
            out.append((s, s.alloc(ListCell(items=[C(x) for x in sorted(y.v for y in it)]))))
        elif isinstance(it, list) and len(it) <= 1:
            out.append((s, s.alloc(ListCell(items=list(it)))))
        else:
            h = getattr(E.contract, "sorted_hook", None)
            if h is None:
                raise Unsupported("sorted() of symbolic sequence")
            out += h(E, s, it, kw)
    return out


def b_chain(E, st, args, kw):
    acc = [(st, st.alloc(ListCell(items=[])))]
    for a in args:
        acc = E.bind(acc, lambda s, v: E.bind(b_list(E, s, [a], {}), lambda s2, w: E.binop_r(s2, "+", v, w)))
    return acc


def b_getattr(E, st, args, kw):
    rs = E.getattr_(st, args[0], args[1].v)
    if len(args) < 3:
        return rs
    return [(s, args[2] if isinstance(v, Raised) and v.cls is AttributeError else v) for s, v in rs]


def b_repr(E, st, args, kw):
    if isinstance(args[0], C):
        return [(st, C(repr(args[0].v)))]
    return [(st, S(TStr, TStr.fresh("repr")))]


def b_sum(E, st, args, kw):
    [(st, it)] = E.iterate(st, args[0])
    if not isinstance(it, list):
        raise Unsupported("sum of symbolic")
    acc = args[1] if len(args) > 1 else C(0)
    for x in it:
        acc = E.binop(st, "+", acc, x)
    return [(st, acc)]


def b_next(E, st, args, kw):
    v = args[0]
    if isinstance(v, Lazy) and v.kind == "genexp":
        out = []
        for s, it in E.iterate(st, v):
            if isinstance(it, list):
                out.append((s, it[0] if it else (args[1] if len(args) > 1 else Raised(StopIteration))))
            else:
                a, b = E.fork(s, it.length > 0)
                if a is not None:
                    out += E.force(a, it.elem(a, z3.IntVal(0)))
                if b is not None:
                    out.append((b, args[1] if len(args) > 1 else Raised(StopIteration)))
        return out
    raise Unsupported("next()")


def b_print(E, st, args, kw):
    return [(st, NONE)]


def b_callable(E, st, args, kw):
    return [(st, C(isinstance(args[0], (Fn, BM)) or isinstance(args[0], C) and callable(args[0].v)))]


BUILTINS = {
    itertools.chain: b_chain, len: b_len, any: b_any, all: b_all, isinstance: b_isinstance, list: b_list, tuple: b_tuple, set: b_set, frozenset: b_set,
    dict: b_dict, str: b_str, int: b_int, float: b_float, round: b_round, abs: b_abs, min: _minmax(True), max: _minmax(False),
    ord: b_ord, chr: b_chr, bool: b_bool, hex: b_hex, type: b_type, range: b_range, sorted: b_sorted, getattr: b_getattr,
    repr: b_repr, sum: b_sum, next: b_next, print: b_print, callable: b_callable, decimal.Decimal: b_decimal,
    enumerate: lambda E, st, a, kw: [(st, Lazy("enumerate", it=a[0], start=a[1] if len(a) > 1 else kw.get("start", C(0))))],
    zip: lambda E, st, a, kw: [(st, Lazy("zip", its=a))],
    reversed: lambda E, st, a, kw: [(st, Lazy("reversed", it=a[0]))],
    iter: lambda E, st, a, kw: [(st, a[0])],
}
