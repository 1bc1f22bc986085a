"""C10: which files a build started from the stored graphs takes as changed,
added and deleted.

os.walk gives the folders of the project with the names of the files in each;
a name stands for the one place it was found at (DIROF), PATH is the file's
path relative to the project."""
import importlib
import os
import z3

from vc.contracts import Contract
from vc.engine import B
from vc.values import *
from vc import trusted
from contracts.graph import GraphContract, View, CheckFile, Path, NMap, FIELDS, AddFile, RemoveFile, SetChildren

M = "vanillaplusjs.build.cold_incremental_rebuild"
MS = "vanillaplusjs.build.file_signature"
Dir, Name, Abs = TU("CDir"), TU("CName"), TU("CAbs")
Names = TBag(Name)
Entry = TTup(Dir, TU("CDirs"), Names)
Walk = TBag(Entry)
PSet = TSet(Path)
q = z3.Const("q", Path.sort())
n_ = z3.Const("n", Name.sort())
i_ = z3.Int("i")
FN = z3.Function
PATH, UNPATH = FN("path_of", Name.sort(), Path.sort()), FN("name_at", Path.sort(), Name.sort())
DIROF, IDX = FN("folder_of_name", Name.sort(), Dir.sort()), FN("walk_index", Name.sort(), z3.IntSort())
FULL, REL, ABS = FN("joined", Dir.sort(), Name.sort(), Abs.sort()), FN("relative", Abs.sort(), Path.sort()), FN("absolute", Path.sort(), Abs.sort())
SIGF = {"mtime": TReal, "filesize": TInt, "inode": TInt}
SG = {k: FN("sig_" + k, Abs.sort(), t.sort()) for k, t in SIGF.items()}
Sel = z3.Select

trusted.ASSUME["C10"] = {
    "trusted": ["os.walk names every file under src once, with the folder it is in", "os.path.join and os.path.relpath are inverse on paths within the project", "os.lstat"],
    "assumptions": ["hot_incremental_rebuild, build_file and scan_file are run, not proved: the bounded part", "a file whose modification time, size and inode are all unchanged holds what it held (so the check can compare them only)"],
}


class Thing:
    pass


class Cold(GraphContract):
    fn = M + ":cold_incremental_rebuild"
    bag_elems = (Path, Name, Entry)
    expect_paths = 1
    no_termination = True
    timeout = 20

    def setup(self, E, st):
        g, self.v0 = self.base(E, st)
        E.use_bag(Walk)
        E.use_bag(Names)
        self.g = g
        self.cls = importlib.import_module(MS).FileSignature
        self.T = TRec("CSig", SIGF, "obj", self.cls)
        E.recs.append(self.T)
        self.folder, self.src = S(TU("CRoot"), TU("CRoot").const("folder")), S(TU("CRoot"), TU("CRoot").const("src_folder"))
        self.graphs = [g] + [st.alloc(ObjCell(Thing, {})) for _ in range(2)]
        self.ctx = st.alloc(ObjCell(Thing, {"folder": self.folder, "src_folder": self.src}))
        self.walk = Walk.const("walk")
        st.ghost["$calls"] = C(())
        # the files found, each once
        self.inw = FN("walked_name", Name.sort(), z3.BoolSort())
        e = lambda i: Walk.fns()[1](self.walk, i)
        nb = lambda i, n: Sel(Names.fns()[2](Entry.get(e(i), 2)), n)
        self.nb = nb
        st.assume(
            z3.ForAll([i_, n_], z3.Implies(z3.And(0 <= i_, i_ < self.wlen(), nb(i_, n_) > 0), z3.And(nb(i_, n_) == 1, self.inw(n_), IDX(n_) == i_, DIROF(n_) == Entry.get(e(i_), 0))), patterns=[nb(i_, n_)]),
            z3.ForAll([n_], z3.Implies(self.inw(n_), z3.And(0 <= IDX(n_), IDX(n_) < self.wlen(), nb(IDX(n_), n_) > 0)), patterns=[self.inw(n_)]),
            z3.ForAll([n_], UNPATH(PATH(n_)) == n_, patterns=[PATH(n_)]),
            z3.ForAll([n_], REL(FULL(DIROF(n_), n_)) == PATH(n_), patterns=[FULL(DIROF(n_), n_)]),
            z3.ForAll([n_], ABS(PATH(n_)) == FULL(DIROF(n_), n_), patterns=[PATH(n_)]),
        )
        return [self.ctx] + self.graphs, {}

    def wlen(self):
        return Walk.fns()[0](self.walk)

    def walked(self, p):
        return z3.And(self.inw(UNPATH(p)), PATH(UNPATH(p)) == p)

    def old(self, p):
        return Sel(self.v0.has, p)

    def differs(self, p):
        n = Sel(self.v0.get, p)
        return z3.Or(*[self.v0.sel(k, n) != SG[k](ABS(p)) for k in SIGF])

    def sig(self, p):
        return self.T.mk(*[SG[k](ABS(p)) for k in SIGF])

    # ---- calls
    def models(self):
        m = importlib.import_module(M)

        def walk(E, st, a, k):
            E.oblige(st, "looks-at-the-sources", B(a[0] is self.src))
            if k:
                raise Unsupported("os.walk with options")
            return [(st, S(Walk, self.walk))]

        def join(E, st, a, k):
            if len(a) == 2 and isinstance(a[0], S) and isinstance(a[1], S):
                if a[0].t == Dir and a[1].t == Name:
                    return [(st, S(Abs, FULL(a[0].e, a[1].e)))]
                if a[0] is self.folder and a[1].t == Path:
                    return [(st, S(Abs, ABS(a[1].e)))]
            raise Unsupported("path")

        def relpath(E, st, a, k):
            E.oblige(st, "relative-to-the-project", B(len(a) > 1 and a[1] is self.folder))
            return [(st, S(Path, REL(a[0].e)))]

        def signature(E, st, a, k):
            return [(st, S(self.T, self.T.mk(*[SG[f](a[0].e) for f in SIGF])))]

        def ext(E, st, a, k):
            E.oblige(st, "external-files-of-this-project", B(a[0] is self.ctx))
            st.ghost["$calls"] = C(st.ghost["$calls"].v + ("external",))
            return [(st, NONE)]

        def hot(E, st, a, k):
            names = ["context", "old_dependency_graph", "old_output_graph", "old_placeholders_graph", "changed_files", "added_files", "deleted_files"]
            v = dict(zip(names, a))
            v.update(k)
            self.rebuild(E, st, v)
            st.ghost["$calls"] = C(st.ghost["$calls"].v + ("rebuild",))
            return [(st, NONE)]
        out = {os.walk: walk, os.path.join: join, os.path.relpath: relpath, m.get_file_signature: signature, m.check_external_files: ext, m.hot_incremental_rebuild: hot}
        return out

    def call_hook(self, E, st, f, args, kwargs):
        if isinstance(f, C) and type(getattr(f.v, "__self__", None)).__module__.startswith("loguru"):
            return [(st, NONE)]
        return None

    def rebuild(self, E, st, v):
        E.oblige(st, "graphs-and-project-passed-on", B(v["context"] is self.ctx and all(isinstance(v[k], L) and v[k].lid == g.lid for k, g in zip(("old_dependency_graph", "old_output_graph", "old_placeholders_graph"), self.graphs))))
        v1 = View(E, st, self.g)
        E.oblige(st, "old-graph-unchanged", z3.And(v1.has == self.v0.has, v1.get == self.v0.get, *[v1.f[k] == self.v0.f[k] for k in FIELDS]))
        p = Path.fresh("any")
        M_ = TMap(Path, self.T)
        for nm, want in (("changed_files", z3.And(self.walked(p), self.old(p), self.differs(p))), ("added_files", z3.And(self.walked(p), z3.Not(self.old(p))))):
            e = E.embed(st, v[nm], M_)
            E.oblige(st, f"{nm}-exact", Sel(M_.has(e), p) == want)
            E.oblige(st, f"{nm}-with-the-current-signature", z3.Implies(Sel(M_.has(e), p), Sel(M_.get(e), p) == self.sig(p)))
        e = E.embed(st, v["deleted_files"], PSet)
        E.oblige(st, "deleted_files-exact", Sel(e, p) == z3.And(self.old(p), z3.Not(self.walked(p))))

    # ---- loops
    def candidates(self, E, lc):
        if lc.it is None or lc.it.bag is None:
            return []
        b = lc.it.bag
        M_ = TMap(Path, self.T)
        if b.t == Walk:
            done = lambda p: z3.And(self.walked(p), IDX(UNPATH(p)) < lc.idx)
        elif b.t == Names:
            pb = Names.fns()[4]
            done = lambda p: z3.And(PATH(UNPATH(p)) == p, Sel(pb(b.e, lc.idx), UNPATH(p)) > 0)
        else:
            return []
        out = []
        d = done(q)
        for nm, s, s0 in lc.typed(PSet):
            if s0 is not None:
                out.append((f"{nm}-loses-found", z3.ForAll([q], Sel(s, q) == z3.And(Sel(s0, q), z3.Not(d)), patterns=[Sel(s, q)])))
                out.append((f"{nm}-gains-found", z3.ForAll([q], Sel(s, q) == z3.Or(Sel(s0, q), d), patterns=[Sel(s, q)])))
        kinds = {"new": z3.Not(self.old(q)), "differing": z3.And(self.old(q), self.differs(q))}
        for nm, s, s0 in lc.typed(M_):
            out.append((f"{nm}-current", z3.ForAll([q], z3.Implies(Sel(M_.has(s), q), Sel(M_.get(s), q) == self.sig(q)), patterns=[Sel(M_.has(s), q)])))
            if s0 is not None:
                for kn, c in kinds.items():
                    out.append((f"{nm}-gains-{kn}", z3.ForAll([q], Sel(M_.has(s), q) == z3.Or(Sel(M_.has(s0), q), z3.And(d, c)), patterns=[Sel(M_.has(s), q)])))
        return out

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        calls = st.ghost["$calls"].v
        E.oblige(st, "one-rebuild-after-the-external-files", B(calls == ("external", "rebuild")))


class Signature(Contract):
    fn = MS + ":get_file_signature"

    def setup(self, E, st):
        self.f = Abs.const("file")
        return [S(Abs, self.f)], {}

    def models(self):
        def lstat(E, st, a, k):
            E.oblige(st, "of-the-file-itself", B(a[0].e.eq(self.f)))
            return [(st, st.alloc(ObjCell(Thing, {"st_mtime": S(TReal, SG["mtime"](self.f)), "st_size": S(TInt, SG["filesize"](self.f)), "st_ino": S(TInt, SG["inode"](self.f))})))]
        return {os.lstat: lstat}

    def candidates(self, E, lc):
        return []

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        f = st.heap[res.lid].fields
        for k, t in SIGF.items():
            E.oblige(st, f"{k}-of-the-file", E.embed(st, f[k], t) == SG[k](self.f))


CONTRACTS = {"C10": [Cold, Signature, CheckFile]}
