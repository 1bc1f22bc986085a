"""Contracts and their discharge."""
import hashlib
import ast
import time
import traceback
import z3

from .values import *
from .engine import Engine, Obligation, SRC, B, _and, _or
from . import solver


class Contract:
    """Sidecar contract of one function of /repo.

    subclasses define
      fn        'module:qualname' of the function under contract
      setup(E, st)           -> (args, kwargs); assumes the precondition in st
      post(E, pre, st, res)  record obligations for one final path; res is the
                             returned value or Raised
    """

    fn = None
    timeout = 10.0
    modular = ()
    unroll = None
    expect_paths = 1
    bag_elems = ()

    def __init__(self):
        self.name = self.label()

    @classmethod
    def label(cls):
        return getattr(cls, "title", None) or cls.fn.split(":")[1]

    def setup(self, E, st):
        raise NotImplementedError

    def post(self, E, pre, st, res):
        raise NotImplementedError

    def models(self):
        return {}

    def prepare(self, E):
        pass

    def no_raise(self, E, st, res):
        """True when res is a value; otherwise an obligation False."""
        if isinstance(res, Raised):
            E.oblige(st, f"no-{getattr(res.cls, '__name__', 'exception')}", z3.BoolVal(False), f"{res.msg}")
            return False
        return True


class Report:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.obligations = []  # dicts
        self.unsupported = None
        self.error = None
        self.paths = 0
        self.inlined, self.used, self.loops = [], [], []
        self.secs = 0.0
        self.src_sha = None
        self.lines = None
        self.axioms = 0

    @property
    def ok(self):
        return not self.unsupported and not self.error and self.obligations and all(o["status"] == "proved" for o in self.obligations)

    @property
    def failed(self):
        return [o for o in self.obligations if o["status"] != "proved"]

    def to_dict(self):
        return dict(self.__dict__, ok=bool(self.ok))


def model_text(m, limit=60):
    if m is None:
        return None
    out = []
    for d in m.decls()[:limit]:
        try:
            t = str(m[d])
        except Exception:
            continue
        out.append(f"{d.name()} = {t[:200]}")
    return out


def verify(ccls, tier="quick"):
    rep = verify1(ccls, 0)
    if rep.obligations and not rep.ok:
        rep2 = verify1(ccls, 1)  # slower solver settings for invariant inference
        rep2.secs += rep.secs
        if rep2.ok or len(rep2.failed) <= len(rep.failed) and not rep2.unsupported and not rep2.error:
            return rep2
    return rep


def verify1(ccls, effort):
    t0 = time.time()
    c = ccls()
    rep = Report(c.name, c.fn)
    try:
        mod, qual = c.fn.split(":")
        node = SRC.find(mod, qual)
        rep.src_sha = hashlib.sha256(ast.dump(node).encode()).hexdigest()[:16]
        rep.lines = f"{SRC.files[mod]}:{node.lineno}-{node.end_lineno}"
        E = Engine(contract=c, modular={m.fn: m() for m in c.modular}, models=c.models(), timeout=c.timeout)
        E.effort = effort
        solver.EXCLUSIVE = frozenset(f.name() for f in getattr(c, "exclusive", ()))
        solver.OPAQUE = getattr(c, "opaque_strings", False)
        solver.STRINGS = getattr(c, "strings", False)
        c.prepare(E)
        st = State()
        args, kwargs = c.setup(E, st)
        # vacuity: the precondition must not be contradictory
        v = solver.prove(E.axioms, st.pc, z3.BoolVal(False), timeout_s=3, use_cvc5=False, quick=True)
        if v.status == "proved":
            rep.error = "vacuous precondition"
            return rep
        pre = st.copy()
        cls = SRC.find(mod, qual.rsplit(".", 1)[0]) if "." in qual else None
        defaults, kwd = [], {}
        fnobj = resolve(mod, qual)
        if fnobj is not None:
            for d in (fnobj.__defaults__ or ()):
                defaults.append(E.import_const(st, d) if isinstance(d, (list, dict, set)) else C(d))
            kwd = {k: C(d) for k, d in (fnobj.__kwdefaults__ or {}).items()}
        results = E.inline(st.copy(), node, None, qual, args, kwargs, defaults, mod, cls, kwd)
        rep.paths = len(results)
        live = 0
        for s, r in results:
            if not E.feasible(s):
                continue
            live += 1
            c.post(E, pre, s, r)
        if live < c.expect_paths:
            rep.error = f"only {live} live paths (expected at least {c.expect_paths})"
            return rep
        rep.inlined = sorted(E.inlined)
        rep.used = sorted(E.contracts_used)
        rep.loops = E.loopinfo
        rep.axioms = len(E.axioms)
        nfail = 0
        for o in E.obls:
            if nfail >= 4:  # enough to report; the rest stays open
                rep.obligations.append({"name": f"{c.name}/{o.name}", "where": o.where, "status": "skipped", "backend": "none", "secs": 0.0})
                continue
            v = solver.prove(E.axioms, o.pc, o.goal, timeout_s=c.timeout)
            d = {"name": f"{c.name}/{o.name}", "where": o.where, "status": v.status, "backend": v.backend, "secs": round(v.secs, 3)}
            if v.status != "proved":
                nfail += 1
                d["reason"] = v.reason
                d["goal"] = str(z3.simplify(o.goal))[:1500]
                d["path"] = [str(z3.simplify(p))[:300] for p in o.pc[-25:]]
                d["model"] = model_text(v.model)
                h = getattr(c, "counterexample", None)
                if h is not None and v.model is not None:
                    try:
                        d["case"] = h(E, pre, v.model)
                    except Exception as e:  # a model that cannot be read back is no case
                        d["case_error"] = repr(e)
            rep.obligations.append(d)
        if not rep.obligations:
            rep.error = "no obligations generated"
    except Unsupported as e:
        rep.unsupported = f"{e}"
        rep.trace = traceback.format_exc().splitlines()[-6:]
    except RecursionError as e:
        rep.unsupported = "recursion limit"
    except Exception as e:
        rep.error = f"{type(e).__name__}: {e}"
        rep.trace = traceback.format_exc().splitlines()[-30:]
    finally:
        rep.secs = round(time.time() - t0, 2)
    return rep


def resolve(mod, qual):
    import importlib
    o = importlib.import_module(mod)
    for p in qual.split("."):
        if p == "<locals>":
            return None
        o = getattr(o, p, None)
        if o is None:
            return None
    return getattr(o, "__func__", o)
