"""Discharging obligations: z3 first (several configurations), then cvc5."""
import os
import subprocess
import tempfile
import time
import z3

DUMP = os.environ.get("VERIF_DUMP")
STATS = {"queries": 0, "z3_s": 0.0, "cvc5_s": 0.0}


def _mk(axioms, pc, extra, timeout_ms, **params):
    s = z3.SimpleSolver()  # no preprocessing that rewrites quantified facts
    s.set("timeout", int(timeout_ms))
    for k, v in params.items():
        s.set(k, v)
    for a in axioms:
        s.add(a)
    for p in pc:
        s.add(p)
    for e in extra:
        s.add(e)
    return s


def feasible(axioms, pc, timeout_ms=250):
    """False only if pc is certainly unsatisfiable."""
    if any(z3.is_false(p) for p in pc):
        return False
    STATS["queries"] += 1
    t = time.time()
    s = _mk(axioms, pc, [], timeout_ms, **({"auto_config": False, "smt.mbqi": False} if any(_has_quant(e) for e in list(axioms) + list(pc)) else {}))
    r = s.check()
    STATS["z3_s"] += time.time() - t
    return r != z3.unsat


class Verdict:
    def __init__(self, status, backend, secs, model=None, reason=""):
        self.status, self.backend, self.secs, self.model, self.reason = status, backend, secs, model, reason


def _cvc5(axioms, pc, goal, timeout_s):
    s = z3.Solver()
    for a in axioms:
        s.add(a)
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, path = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        t = time.time()
        try:
            r = subprocess.run(["cvc5", "--strings-exp", f"--tlimit={int(timeout_s * 1000)}", path], capture_output=True, text=True, timeout=timeout_s + 5)
            out = r.stdout.strip().splitlines()
        except subprocess.TimeoutExpired:
            out = ["timeout"]
        dt = time.time() - t
        STATS["cvc5_s"] += dt
        return (out[0] if out else "error"), dt
    finally:
        os.unlink(path)


_quant = {}


def _has_quant(e):
    k = e.get_id()
    r = _quant.get(k)
    if r is not None and r[0] is not None and z3.eq(r[0], e):
        return r[1]
    todo, seen, res = [e], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        todo.extend(x.children())
    _quant[k] = (e, res)
    return res


OPAQUE = False  # first without what string and sequence operations mean
_opaque, _OPS = {}, {}


def opaque(e):
    """e with every operation on strings and sequences an unknown function
    (a weaker set of facts: what follows from it follows from e)"""
    k = e.get_id()
    r = _opaque.get(k)
    if r is not None and z3.eq(r[0], e):
        return r[1]
    if z3.is_quantifier(e):
        n = e.num_vars()
        vs = [z3.FreshConst(e.var_sort(i), "b") for i in range(n)]
        back = list(reversed(vs))
        body = opaque(z3.substitute_vars(e.body(), *back))
        pats = []
        for i in range(e.num_patterns()):
            ps = [opaque(z3.substitute_vars(x, *back)) for x in e.pattern(i).children()]
            pats.append(z3.MultiPattern(*ps) if len(ps) > 1 else ps[0])
        x = e if e.is_lambda() else (z3.ForAll if e.is_forall() else z3.Exists)(vs, body, patterns=pats)
    elif z3.is_app(e) and e.num_args():
        args = [opaque(a) for a in e.children()]
        d = e.decl()
        seqs = any(z3.is_seq(a) for a in args) or z3.is_seq(e)
        if seqs and d.kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_ITE, z3.Z3_OP_SELECT, z3.Z3_OP_STORE, z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_RECOGNISER, z3.Z3_OP_DT_IS, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_ARRAY_MAP) and not z3.is_string_value(e):
            key = (d.name(), tuple(a.sort().sexpr() for a in args), e.sort().sexpr())
            if key not in _OPS:
                _OPS[key] = z3.Function(f"op_{len(_OPS)}_{d.name()}", *[a.sort() for a in args], e.sort())
            x = _OPS[key](*args)
        elif all(a.get_id() == b.get_id() for a, b in zip(args, e.children())):
            x = e
        else:
            x = d(*args) if d.kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And if d.kind() == z3.Z3_OP_AND else z3.Or)(*args)
    else:
        x = e
    _opaque[k] = (e, x)
    return x


EXCLUSIVE = frozenset()  # names of functions whose facts only matter to goals about them
_syms = {}


STRINGS = False  # string-heavy contract: z3 briefly, then cvc5
PLAIN = {}


def plain(f):
    """mark a fact that only matters to goals without exclusive functions"""
    PLAIN[f.get_id()] = f
    return f


def symbols(e):
    k = e.get_id()
    r = _syms.get(k)
    if r is not None and z3.eq(r[0], e):
        return r[1]
    todo, seen, res = [e], set(), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
            res.add(x.decl().name())
        elif z3.is_quantifier(x):
            todo.append(x.body())
        todo.extend(x.children())
    _syms[k] = (e, frozenset(res))
    return _syms[k][1]


def _relevant(pc, goal):
    """pc without the facts about exclusive functions the goal does not
    mention (dropping hypotheses is sound)."""
    gs = symbols(goal)
    bad = EXCLUSIVE - gs
    special = bool(EXCLUSIVE & gs)
    out = []

    def add(p):
        if special and p.get_id() in PLAIN:
            return
        if not (symbols(p) & bad):
            out.append(p)
        elif z3.is_and(p):
            for c in p.children():
                add(c)
        elif z3.is_implies(p) and z3.is_and(p.arg(1)):
            for c in p.arg(1).children():
                add(z3.Implies(p.arg(0), c))
    for p in pc:
        add(p)
    return out


def prove(axioms, pc, goal, timeout_s=10.0, use_cvc5=True, quick=False):
    if z3.is_true(goal):
        return Verdict("proved", "trivial", 0.0)
    if EXCLUSIVE:
        cut = _relevant(pc, goal)
        v = _prove(axioms, cut, goal, timeout_s, use_cvc5, quick)
        if v.status == "proved" or len(cut) == len(pc):
            return v
        if v.status == "unknown" and quick:
            return v
    return _prove(axioms, pc, goal, timeout_s, use_cvc5, quick)


def _prove(axioms, pc, goal, timeout_s=10.0, use_cvc5=True, quick=False):
    STATS["queries"] += 1
    t0 = time.time()
    neg = z3.Not(goal)
    model = None
    reason = ""
    hasq = any(_has_quant(e) for e in list(axioms) + list(pc) + [goal])
    if OPAQUE and hasq:
        t = time.time()
        try:
            s = _mk([opaque(a) for a in axioms], [opaque(p) for p in pc], [opaque(neg)], timeout_s * 400, **{"auto_config": False, "smt.mbqi": False})
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        STATS["z3_s"] += time.time() - t
        if r == z3.unsat:
            return Verdict("proved", "z3", time.time() - t0)
    if hasq:
        # E-matching alone answers quickly either way; model-based
        # instantiation is only tried afterwards
        cfgs = [({"auto_config": False, "smt.mbqi": False}, timeout_s * (0.1 if STRINGS else 0.4))]
        if not quick:
            cfgs += [({"auto_config": False, "smt.mbqi": False, "smt.relevancy": 0}, timeout_s * 0.2), ({}, timeout_s * 0.3)]
    else:
        cfgs = [({}, timeout_s)] if quick else [({}, timeout_s * 0.5), ({"random_seed": 7}, timeout_s * 0.25), ({"random_seed": 3, "smt.arith.solver": 2}, timeout_s * 0.25)]
    if STRINGS and not hasq:
        s = _mk(axioms, pc, [neg], 400)
        t = time.time()
        r = s.check()
        STATS["z3_s"] += time.time() - t
        if r == z3.unsat:
            return Verdict("proved", "z3", time.time() - t0)
        if r == z3.sat:
            return Verdict("refuted", "z3", time.time() - t0, s.model(), "counter-model")
        r, dt = _cvc5(axioms, pc, goal, min(timeout_s, 4.0))
        if r == "unsat":
            return Verdict("proved", "cvc5", time.time() - t0)
        if r == "sat":
            return Verdict("refuted", "cvc5", time.time() - t0, None, "cvc5: sat")
        use_cvc5 = use_cvc5 and timeout_s > 4.0
    for params, to in cfgs:
        t = time.time()
        try:
            s = _mk(axioms, pc, [neg], to * 1000, **params)
            r = s.check()
        except z3.Z3Exception as e:
            r, reason = z3.unknown, str(e)
        STATS["z3_s"] += time.time() - t
        if r == z3.unsat:
            return Verdict("proved", "z3", time.time() - t0)
        if r == z3.sat:
            if "smt.mbqi" in params:
                reason = "e-matching saturated"
                continue
            model = s.model()
            return Verdict("refuted", "z3", time.time() - t0, model, "counter-model")
        reason = s.reason_unknown()
        if STRINGS and hasq and use_cvc5 and not quick:
            r, dt = _cvc5(axioms, pc, goal, timeout_s)
            if r == "unsat":
                return Verdict("proved", "cvc5", time.time() - t0)
            use_cvc5 = False
    if DUMP:
        z = z3.Solver()
        for a in [*axioms, *pc, neg]:
            z.add(a)
        STATS["dumped"] = STATS.get("dumped", 0) + 1
        with open(f"{DUMP}/q{STATS['dumped']}.smt2", "w") as f:
            f.write("(set-logic ALL)\n" + z.to_smt2())
    if use_cvc5 and not quick:
        r, dt = _cvc5(axioms, pc, goal, timeout_s)
        if r == "unsat":
            return Verdict("proved", "cvc5", time.time() - t0)
        if r == "sat":
            return Verdict("refuted", "cvc5", time.time() - t0, None, "cvc5: sat")
    return Verdict("unknown", "z3+cvc5", time.time() - t0, None, reason)
