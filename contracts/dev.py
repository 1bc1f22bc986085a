"""Contracts of the dev watcher's pending-change bookkeeping (C13).

Ghost state: E (which files exist now) and T (which files were touched since
the changes were last handed to a rebuild).  The invariant ties the handler's
three sets to them.  Each acquisition of the lock in rebuild_if_appropriate
is a rely step: any number of events may have been delivered before it."""
import asyncio
import importlib
import json
import os
import time
import z3

from vc.contracts import Contract
from vc.engine import B
from vc.values import *
from vc import trusted

M = "vanillaplusjs.runners.dev"
Path = TU("WPath")
Rel = TU("WRel")
Sig = TU("WSig")
PSet = TSet(Path)
SETS = ("deleted_files", "changed_files", "created_files")
q = z3.Const("q", Path.sort())
Sel = z3.Select
trusted.ASSUME["C13"] = {
    "trusted": ["watchdog delivers an event for every change, each under the path it concerns", "os.path.relpath maps different absolute paths to different relative paths", "threading.RLock is a lock; asyncio runs the rebuild coroutine to its result or its exception"],
    "assumptions": ["the project configuration can be read when a rebuild starts", "the state of the disk is that of the delivered events (an event still on its way re-establishes the invariant when it is delivered: the handlers' postconditions for the event's path do not depend on the sets)"],
}


class Lock:
    pass


class Thing:
    pass


def nonempty(e):
    return e != z3.K(Path.sort(), z3.BoolVal(False))


class View:
    def __init__(self, E, st, h):
        f = st.heap[h.lid].fields
        self.D, self.Ch, self.Cr = (E.embed(st, f[n], PSet) for n in SETS)
        self.unb = E.truth(st, f["project_is_unbuildable"])
        self.unb = B(self.unb) if isinstance(self.unb, bool) else self.unb
        self.last = E.embed(st, f["last_change_at"], TReal)
        self.E, self.T = st.ghost["$exists"].e, st.ghost["$touched"].e

    def at(self, n, x):
        return Sel(getattr(self, n), x)

    def inv1(self, x, E=None, T=None):
        d, ch, cr = (self.at(n, x) for n in ("D", "Ch", "Cr"))
        e, t = Sel(self.E if E is None else E, x), Sel(self.T if T is None else T, x)
        return z3.And(d == z3.And(t, z3.Not(e)), z3.Or(ch, cr) == z3.And(t, e), z3.Not(z3.And(ch, cr)))

    def inv(self):
        return z3.ForAll([q], self.inv1(q), patterns=[self.at("D", q), self.at("Ch", q), self.at("Cr", q)])

    def nothing(self):
        return z3.Not(z3.Or(nonempty(self.D), nonempty(self.Ch), nonempty(self.Cr)))


class Dev(Contract):
    no_termination = True
    bag_elems = (Path,)

    def handler(self, E, st):
        self.cls = importlib.import_module(M).DevEventHandler
        self.lock = st.alloc(ObjCell(Lock, {}))
        f = {n: st.alloc(SetCell(sym=S(PSet, PSet.const(n + "0")))) for n in SETS}
        self.deb = z3.Real("debounce_seconds")
        self.folder = S(TU("WFolder"), TU("WFolder").const("folder"))
        f.update({"folder": self.folder, "debounce_seconds": S(TReal, self.deb), "symlinks": S(TBool, z3.Bool("symlinks")), "project_is_unbuildable": S(TBool, z3.Bool("unbuildable0")), "lock": self.lock, "last_change_at": S(TReal, z3.Real("last0"))})
        self.h = st.alloc(ObjCell(self.cls, f))
        st.ghost["$exists"] = S(PSet, PSet.const("exists0"))
        st.ghost["$touched"] = S(PSet, PSet.const("touched0"))
        st.ghost["$held"] = C(0)
        st.ghost["$now"] = S(TReal, z3.Real("now0"))
        v = View(E, st, self.h)
        st.assume(v.inv())
        self.v0 = v
        return v

    def with_hook(self, E, st, m):
        if m is self.lock or isinstance(m, L) and m.lid == self.lock.lid:
            st.ghost["$held"] = C(st.ghost["$held"].v + 1)
            return self.acquired(E, st)
        return None

    def acquired(self, E, st):
        return [(st, NONE)]

    def exit_hook(self, E, st, m):
        if isinstance(m, L) and m.lid == self.lock.lid:
            st.ghost["$held"] = C(st.ghost["$held"].v - 1)
            return [(st, NONE)]
        return None

    def getattr_hook(self, E, st, v, name):
        if isinstance(v, L) and v.lid == self.h.lid and name in SETS:
            E.oblige(st, "pending-sets-only-used-under-the-lock", B(st.ghost["$held"].v > 0))
        return None

    def call_hook(self, E, st, f, args, kwargs):
        if isinstance(f, C) and type(getattr(f.v, "__self__", None)).__module__.startswith("loguru"):
            return [(st, NONE)]
        return None

    def models(self):
        def now(E, st, a, k):
            t = TReal.fresh("now")
            st.assume(t >= st.ghost["$now"].e)
            st.ghost["$now"] = S(TReal, t)
            return [(st, S(TReal, t))]

        def ev(kind):
            def mk(E, st, a, k):
                vals = list(a) + [None, None]
                src = k.get("src_path", vals[0])
                dst = k.get("dest_path", vals[1])
                return [(st, st.alloc(ObjCell(Thing, {"src_path": src, "dest_path": dst or C(""), "is_directory": C(False), "event_type": C(kind)})))]
            return mk
        m = importlib.import_module(M)
        out = {time.time: now}
        for n in ("Modified", "Moved", "Deleted", "Created"):
            if hasattr(m, f"File{n}Event"):
                out[getattr(m, f"File{n}Event")] = ev(n.lower())
        return out


class OnEvent(Dev):
    kind = None
    expect_paths = 2

    @classmethod
    def label(cls):
        return cls.fn.split(":")[1]

    def setup(self, E, st):
        v = self.handler(E, st)
        self.p, self.p2 = Path.const("src_path"), Path.const("dest_path")
        self.isdir = z3.Bool("is_directory")
        if self.kind == "modified":
            st.assume(Sel(v.E, self.p))  # a file that was modified exists
        ev = st.alloc(ObjCell(Thing, {"src_path": S(Path, self.p), "dest_path": S(Path, self.p2), "is_directory": S(TBool, self.isdir), "event_type": C(self.kind)}))
        return [self.h, ev], {}

    def effect(self, v):
        E, T = v.E, v.T
        t, f = z3.BoolVal(True), z3.BoolVal(False)
        if self.kind == "modified":
            return E, z3.Store(T, self.p, t)
        if self.kind == "created":
            return z3.Store(E, self.p, t), z3.Store(T, self.p, t)
        if self.kind == "deleted":
            return z3.Store(E, self.p, f), z3.Store(T, self.p, t)
        return z3.Store(z3.Store(E, self.p, f), self.p2, t), z3.Store(z3.Store(T, self.p, t), self.p2, t)

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        v0, v = self.v0, View(E, st, self.h)
        same = z3.And(v.D == v0.D, v.Ch == v0.Ch, v.Cr == v0.Cr, v.unb == v0.unb, v.last == v0.last)
        E.oblige(st, "folders-change-nothing", z3.Implies(self.isdir, same))
        ex, to = self.effect(v0)
        x = Path.fresh("any")
        st.assume(v0.inv1(x))
        E.oblige(st, "pending-sets-describe-every-file", z3.Implies(z3.Not(self.isdir), v.inv1(x, ex, to)))
        E.oblige(st, "build-is-allowed-again", z3.Implies(z3.Not(self.isdir), z3.Not(v.unb)))
        E.oblige(st, "debounce-restarts-now", z3.Implies(z3.Not(self.isdir), v.last == st.ghost["$now"].e))
        E.oblige(st, "lock-released", B(st.ghost["$held"].v == 0))


def mk(kind):
    return type("On" + kind.title(), (OnEvent,), {"fn": f"{M}:DevEventHandler.on_{kind}", "kind": kind})


OnModified, OnCreated, OnDeleted, OnMoved = map(mk, ("modified", "created", "deleted", "moved"))

REL = z3.Function("relpath", Path.sort(), Rel.sort())
UNREL = z3.Function("unrelpath", Rel.sort(), Path.sort())
SIG = z3.Function("signature", Path.sort(), Sig.sort())
RMap = TMap(Rel, Sig)


class Rebuild(Dev):
    fn = M + ":DevEventHandler.rebuild_if_appropriate"
    expect_paths = 4
    timeout = 20
    cost = 5
    merge = True

    def setup(self, E, st):
        self.handler(E, st)
        E.use_bag(TBag(Path))
        st.ghost["$acq"] = C(0)
        st.ghost["$called"] = C(0)
        st.ghost["$events"] = C(False)
        st.ghost["$ended"] = C("")
        st.assume(z3.ForAll([q], UNREL(REL(q)) == q, patterns=[REL(q)]))
        return [self.h], {}

    def acquired(self, E, st):
        n = st.ghost["$acq"].v
        st.ghost["$acq"] = C(n + 1)
        if n == 0:
            return [(st, NONE)]
        v = View(E, st, self.h)
        # handed over: from here on only later changes are pending
        E.oblige(st, "handed-over-changes-are-no-longer-pending", v.nothing())
        st.assume(v.nothing())
        empty = z3.K(Path.sort(), z3.BoolVal(False))
        st.ghost["$touched0"] = st.ghost["$touched"]
        st.ghost["$touched"] = S(PSet, empty)
        s = st.copy()  # events may have been delivered in the meantime
        v = View(E, s, self.h)
        f = dict(s.heap[self.h.lid].fields)
        N = PSet.fresh("touched_meanwhile")
        new = {k: PSet.fresh(k) for k in SETS}
        E1 = PSet.fresh("exists")
        T1 = PSet.fresh("touched")
        for k, nm in zip(SETS, ("D", "Ch", "Cr")):
            s.assume(z3.ForAll([q], z3.Implies(z3.Not(Sel(N, q)), Sel(new[k], q) == v.at(nm, q)), patterns=[Sel(new[k], q)]))
            s.heap[f[k].lid] = SetCell(sym=S(PSet, new[k]))
        s.assume(z3.ForAll([q], z3.Implies(z3.Not(Sel(N, q)), Sel(E1, q) == Sel(v.E, q)), patterns=[Sel(E1, q)]))
        s.assume(z3.ForAll([q], Sel(T1, q) == z3.Or(Sel(v.T, q), Sel(N, q)), patterns=[Sel(T1, q)]))
        w = Path.fresh("touched_file")
        s.assume(Sel(N, w), Sel(T1, w))
        s.heap[self.h.lid] = ObjCell(self.cls, {**f, "project_is_unbuildable": C(False), "last_change_at": S(TReal, TReal.fresh("last"))})
        s.ghost["$exists"], s.ghost["$touched"], s.ghost["$events"] = S(PSet, E1), S(PSet, T1), C(True)
        v1 = View(E, s, self.h)
        s.assume(v1.inv(), v1.inv1(w))
        return [(st, NONE), (s, NONE)]

    # ---- calls
    def models(self):
        m = importlib.import_module(M)
        out = super().models()
        thing = lambda E, st, a, k: [(st, st.alloc(ObjCell(Thing, {})))]

        def ctx(E, st, a, k):
            o = TU("Opaque")
            return [(st, st.alloc(ObjCell(Thing, {n: S(o, o.fresh(n)) for n in ("config_file", "dependency_graph_file", "output_graph_file", "placeholder_graph_file", "folder")})))]

        def conf(E, st, a, k):
            o = TU("Opaque")
            return [(st, st.alloc(DictCell(items={n: S(o, o.fresh(n)) for n in ("host", "images", "auto_generate_images_js_placeholders", "external_files", "js_constants")})))]

        def exists(E, st, a, k):
            if isinstance(a[0], S) and a[0].t == Path:
                return [(st, S(TBool, Sel(st.ghost["$exists"].e, a[0].e)))]
            return [(st, C(True))]  # the stored graphs

        def relpath(E, st, a, k):
            E.oblige(st, "relative-to-the-project", B(len(a) > 1 and a[1] is self.folder))
            return [(st, S(Rel, REL(a[0].e)))]

        def signature(E, st, a, k):
            bad = st.copy()  # the file is gone again
            bad.ghost["$ended"], bad.ghost["$called"] = C("failed"), C(0)
            return [(st, S(Sig, SIG(a[0].e))), (bad, Raised(Exception, "the build failed"))]

        def hot(E, st, a, k):
            names = ["context", "old_dependency_graph", "old_output_graph", "old_placeholders_graph", "changed_files", "added_files", "deleted_files"]
            v = dict(zip(names, a))
            v.update(k)
            self.rebuild_called(E, st, v)
            st.ghost["$called"] = C(st.ghost["$called"].v + 1)
            return [(st, st.alloc(ObjCell(Thing, {})))]
        out.update({m.BuildContext: ctx, json.load: conf, open: thing, os.path.exists: exists, os.path.lexists: exists, os.path.relpath: relpath, m.get_file_signature: signature, m.hot_incremental_rebuild: hot, "vanillaplusjs.build.graph:FileDependencyGraph.load": thing, m.FileDependencyGraph: thing, asyncio.new_event_loop: thing, asyncio.set_event_loop: thing, asyncio.all_tasks: lambda E, st, a, k: [(st, st.alloc(SetCell(items=[])))]})
        for n in ("load_icon_settings", "load_image_settings", "load_external_files", "load_js_constants"):
            if hasattr(m, n):
                out[getattr(m, n)] = thing
        return out

    def method_hook(self, E, st, recv, name, args, kwargs):
        if isinstance(recv, L) and isinstance(st.heap[recv.lid], ObjCell) and st.heap[recv.lid].cls is Thing:
            if name == "run_until_complete":
                bad = st.copy()
                st.ghost["$ended"], bad.ghost["$ended"] = C("ok"), C("failed")
                bad.ghost["$called"] = C(0)
                return [(st, NONE), (bad, Raised(Exception, "the build failed"))]
            return [(st, NONE)]
        return None

    def rebuild_called(self, E, st, v):
        z = self.v0
        due = z3.And(z3.Not(z.unb), z3.Not(z.nothing()), st.ghost["$now"].e - z.last >= self.deb)
        E.oblige(st, "rebuilds-only-when-due", due)
        for name, key in (("changed_files", "Ch"), ("added_files", "Cr")):
            f = Path.fresh("f")
            r = Rel.fresh("r")
            c = st.heap[v[name].lid] if isinstance(v[name], L) else None
            if not isinstance(c, DictCell):
                E.oblige(st, f"{name}-is-a-mapping", B(False))
                continue
            if c.items is not None:
                E.oblige(st, f"{name}-complete", B(False) if c.items else z3.Not(nonempty(getattr(z, key))))
                continue
            e = c.sym.e
            s = st.copy()
            s.assume(z.at(key, f))
            E.oblige(s, f"{name}-all-passed-on", z3.Select(RMap.has(e), REL(f)))
            s = st.copy()
            s.assume(z3.Select(RMap.has(e), r))
            E.oblige(s, f"{name}-nothing-else", z3.And(z.at(key, UNREL(r)), REL(UNREL(r)) == r, z3.Select(RMap.get(e), r) == SIG(UNREL(r))))
        k, c = E.list_get(st, v["deleted_files"])
        f = Path.fresh("f")
        if k == "items":
            E.oblige(st, "deleted_files-complete", B(False) if c else z3.Not(nonempty(z.D)))
        else:
            t = c.t
            ln = E.seq_len(c)
            i = z3.Int("i!x")
            at = (lambda x: t.fns()[1](c.e, x)) if isinstance(t, TBag) else (lambda x: c.e[x])
            s = st.copy()
            s.assume(z.at("D", f))
            E.oblige(s, "deleted_files-all-passed-on", z3.Select(t.fns()[2](c.e), REL(f)) > 0 if isinstance(t, TBag) else z3.Contains(c.e, z3.Unit(REL(f))))
            s = st.copy()
            n = z3.Int(fresh_name("n"))
            s.assume(0 <= n, n < ln)
            E.oblige(s, "deleted_files-nothing-else", z3.And(z.at("D", UNREL(at(n))), REL(UNREL(at(n))) == at(n)))

    def candidates(self, E, lc):
        if lc.it is None or lc.it.bag is None or lc.it.bag.t != TBag(Path):
            return []
        v, ve = View(E, lc.st, self.h), View(E, lc.entry, self.h)
        pb, bag = lc.it.bag.t.fns()[4], lc.it.bag.t.fns()[2]
        done = Sel(pb(lc.it.bag.e, lc.idx), q) > 0
        ex = Sel(v.E, q)
        out = []
        nm = {"D": "deleted", "Ch": "changed", "Cr": "created"}
        pat = [v.at("D", q), v.at("Ch", q), v.at("Cr", q)]
        FA = lambda f: z3.ForAll([q], f, patterns=pat)
        for a, bs in (("Ch", "Cr"), ("Cr", "Ch")):
            out.append((f"{nm[a]}-gains-existing", FA(v.at(a, q) == z3.Or(ve.at(a, q), z3.And(done, ex, z3.Not(ve.at(bs, q)))))))
        out.append(("deleted-loses-existing", FA(v.at("D", q) == z3.And(ve.at("D", q), z3.Not(z3.And(done, ex))))))
        out.append(("deleted-gains-gone", FA(v.at("D", q) == z3.Or(ve.at("D", q), z3.And(done, z3.Not(ex))))))
        for a in ("Ch", "Cr"):
            out.append((f"{nm[a]}-loses-gone", FA(v.at(a, q) == z3.And(ve.at(a, q), z3.Not(z3.And(done, z3.Not(ex)))))))
        return out

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        z, v = self.v0, View(E, st, self.h)
        E.oblige(st, "lock-released", B(st.ghost["$held"].v == 0))
        x = Path.fresh("any")
        acq, called, ended = st.ghost["$acq"].v, st.ghost["$called"].v, st.ghost["$ended"].v
        due = z3.And(z3.Not(z.unb), z3.Not(z.nothing()), st.ghost["$now"].e - z.last >= self.deb)
        st.assume(z.inv1(x))
        if acq <= 1:
            E.oblige(st, "rebuilds-when-due", z3.Not(due))
            E.oblige(st, "otherwise-changes-nothing", z3.And(v.D == z.D, v.Ch == z.Ch, v.Cr == z.Cr, v.unb == z.unb, v.last == z.last))
            return
        E.oblige(st, "one-rebuild-at-most", B(called <= 1 and acq == 2))
        ok = ended == "ok" and called == 1
        if ok:
            # what was handed over is done; only later changes are pending
            E.oblige(st, "exactly-the-later-changes-stay-pending", v.inv1(x))
            E.oblige(st, "buildable-after-success", z3.Not(v.unb))
        else:
            E.oblige(st, "failed-build-keeps-every-change-pending", v.inv1(x, None, z3.SetUnion(st.ghost["$touched0"].e, st.ghost["$touched"].e)))
            E.oblige(st, "waits-for-a-change-after-failure", v.unb == B(not st.ghost["$events"].v))


CONTRACTS = {"C13": [OnModified, OnCreated, OnDeleted, OnMoved, Rebuild]}
