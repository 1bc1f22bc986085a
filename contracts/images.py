"""Contracts of the image geometry (C12): cover_fit, the export resolutions,
the choice between exports and the produced picture."""
import dataclasses
import z3

from vc.contracts import Contract
from vc.engine import B, _and
from vc.values import *
from vc import trusted

D = "vanillaplusjs.build.html.manips.images."
trusted.ASSUME["C12"] = {
    "trusted": ["PIL: crop(box) gives that region, resize(size) gives that size, save writes the picture"],
    "assumptions": ["float and Decimal arithmetic is treated as exact real arithmetic (image sides below 2**26, steps with few digits)"],
}
half = z3.RealVal("1/2")
R = z3.ToReal


def IntV(n):
    return z3.Int(n)


ARGS = ["source_width", "source_height", "dest_width", "dest_height", "crop_left_percentage", "crop_top_percentage", "pre_top_crop", "pre_left_crop", "pre_bottom_crop", "pre_right_crop"]


def trunc(e):
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


class CoverFit(Contract):
    fn = D + "cover_fit:cover_fit"
    expect_paths = 4
    timeout = 20.0
    crops = True

    def setup(self, E, st):
        self.a = {}
        kw = {}
        for n in ARGS:
            t = TReal if "percentage" in n else TInt
            e = t.const(n)
            self.a[n] = e
            kw[n] = S(t, e)
        a = self.a
        for n in ARGS[:4]:
            st.assume(a[n] >= 1)
        for n in ARGS[4:6]:
            st.assume(a[n] >= 0, a[n] <= 1)
        for n in ARGS[6:]:
            st.assume(a[n] >= 0)
        if not self.crops:
            for n in ARGS[6:]:
                kw[n] = C(0)
                st.assume(a[n] == 0)
        return [], kw

    def post(self, E, pre, st, res):
        a = self.a
        dw, dh, lp, tp = (a[n] for n in ARGS[2:6])
        pt, pl, pb, pr = (a[n] for n in ARGS[6:])
        W = a["source_width"] - pl - pr
        H = a["source_height"] - pt - pb
        if isinstance(res, Raised):
            E.oblige(st, "refuses-only-when-nothing-is-left", z3.And(B(issubclass(res.cls, ValueError)), z3.Or(W <= 0, H <= 0)))
            return
        E.oblige(st, "refuses-when-nothing-is-left", z3.And(W > 0, H > 0))
        st.assume(W > 0, H > 0)
        if not (isinstance(res, Tup) and len(res.items) == 4):
            E.oblige(st, "returns-a-rectangle", B(False))
            return
        x, y, w, h = (E.embed(st, i, TInt) for i in res.items)
        wide, tall = W * dh > dw * H, W * dh < dw * H
        qw, qh = z3.Real("qw"), z3.Real("qh")  # the exact sides
        st.assume(qw * R(dh) == R(dw * H), qh * R(dw) == R(dh * W))
        E.oblige(st, "wider-source-keeps-height", z3.Implies(wide, z3.And(h == H, y == pt)))
        E.oblige(st, "wider-source-nearest-width", z3.Implies(wide, z3.And(R(w) - qw <= half, qw - R(w) <= half)))
        E.oblige(st, "wider-source-left-offset", z3.Implies(wide, x == pl + trunc(R(W - w) * lp)))
        E.oblige(st, "taller-source-keeps-width", z3.Implies(tall, z3.And(w == W, x == pl)))
        E.oblige(st, "taller-source-nearest-height", z3.Implies(tall, z3.And(R(h) - qh <= half, qh - R(h) <= half)))
        E.oblige(st, "taller-source-top-offset", z3.Implies(tall, y == pt + trunc(R(H - h) * tp)))
        E.oblige(st, "same-ratio-is-everything", z3.Implies(z3.And(z3.Not(wide), z3.Not(tall)), z3.And(x == pl, y == pt, w == W, h == H)))
        s = st.copy()
        s.assume(z3.Implies(wide, qw < R(W)), z3.Implies(tall, qh < R(H)))
        E.oblige(st, "lemma-exact-sides-fit", z3.And(z3.Implies(wide, qw < R(W)), z3.Implies(tall, qh < R(H))))
        E.oblige(s, "no-larger-than-what-is-left", z3.And(w <= W, h <= H, w >= 0, h >= 0))
        s.assume(w <= W, h <= H, w >= 0, h >= 0)
        E.oblige(s, "inside-the-source", z3.And(x >= pl, y >= pt, x + w <= a["source_width"] - pr, y + h <= a["source_height"] - pb))


class CoverFitPlain(CoverFit):
    title = "cover_fit (no pre-crop)"
    crops = False
    expect_paths = 3


# ------------------------------------------------------------ resolutions
class Settings:
    pass


class Ctx:
    pass


RS = TSeq(TReal)
PAIR = TTup(TInt, TInt)
PS = TSeq(PAIR)


class Resolutions(Contract):
    fn = D + "resolutions:yield_resolutions"
    no_termination = True

    def setup(self, E, st):
        self.mx, self.step = z3.Int("maximum_resolution"), z3.Real("resolution_step")
        self.d = [z3.Int(n) for n in ("src_width", "src_height", "dst_width", "dst_height")]
        st.assume(self.step > 0)
        s = st.alloc(ObjCell(Settings, {"maximum_resolution": S(TInt, self.mx), "resolution_step": S(TReal, self.step)}))
        ctx = st.alloc(ObjCell(Ctx, {"image_settings": s}))
        st.ghost["$out"] = S(RS, z3.Empty(RS.sort()))
        st.assume(self.OK(z3.Empty(RS.sort())))
        return [ctx] + [S(TInt, e) for e in self.d], {}

    # OK(Y): Y is 1, 1 + step, ... with every element fitting.  Defined by
    # recursion on the sequence; unfolded where an element is appended.
    OK = z3.Function("multiples_that_fit", RS.sort(), z3.BoolSort())

    def on_yield(self, E, st, v):
        Y, r = st.ghost["$out"].e, E.embed(st, v, TReal)
        Z = z3.Concat(Y, z3.Unit(r))
        st.assume(self.OK(Z) == z3.And(self.OK(Y), r == self.nth(z3.Length(Y)), self.fits(r)))
        st.ghost["$out"] = S(RS, Z)
        return [(st, NONE)]

    def fits(self, r):
        sw, sh, dw, dh = (R(e) for e in self.d)
        return z3.And(sw >= dw * r, sh >= dh * r, r <= R(self.mx))

    def nth(self, i):
        return 1 + R(i) * self.step

    def allok(self, Y):
        return self.OK(Y)

    def candidates(self, E, lc):
        Y = lc.st.ghost["$out"].e
        out = [("yielded-so-far", self.allok(Y))]
        for nm, e, _ in lc.typed(TReal):
            out.append((f"{nm}-is-the-next", e == self.nth(z3.Length(Y))))
        return out

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        Y = st.ghost["$out"].e
        E.oblige(st, "yields-multiples-that-fit-in-order", self.allok(Y))
        E.oblige(st, "leaves-none-out", z3.Not(self.fits(self.nth(z3.Length(Y)))))

    # use at a call site: the sequence the contract promises
    def apply(self, E, st, args, kwargs):
        names = ["context", "src_width", "src_height", "dst_width", "dst_height"]
        vals = dict(zip(names, args))
        vals.update(kwargs)
        E.contract.inner_args(E, st, [vals.get(n) for n in names])
        Y = RS.fresh("resolutions")
        st.assume(E.contract.MAP(Y, 0) == z3.Empty(PS.sort()))
        return [(st, st.alloc(ListCell(seq=S(RS, Y))))]


class Sizes(Contract):
    fn = D + "resolutions:yield_sizes"
    modular = (Resolutions,)
    no_termination = True

    def setup(self, E, st):
        self.d = [z3.Int(n) for n in ("src_width", "src_height", "dst_width", "dst_height")]
        st.assume(self.d[2] >= 0, self.d[3] >= 0)
        self.ctx = st.alloc(ObjCell(Ctx, {}))
        st.ghost["$out"] = S(PS, z3.Empty(PS.sort()))
        self.calls = []
        return [self.ctx] + [S(TInt, e) for e in self.d], {}

    def inner_args(self, E, st, vals):
        self.calls.append((st, vals))
        E.oblige(st, "asks-for-the-same-source-and-target", z3.And(B(vals[0] == self.ctx), *[B(False) if v is None else E.embed(st, v, TInt) == e for v, e in zip(vals[1:], self.d)]))

    def on_yield(self, E, st, v):
        st.ghost["$out"] = S(PS, z3.Concat(st.ghost["$out"].e, z3.Unit(E.embed(st, v, PAIR))))
        return [(st, NONE)]

    # MAP(Rs, n): the sizes of the first n resolutions (recursion on n)
    MAP = z3.Function("sizes_of", RS.sort(), z3.IntSort(), PS.sort())

    def prefix(self, E, Y, Rs, n):
        return Y == self.MAP(Rs, n)

    def lemmas(self, E, lc):
        if lc.it is None:
            return []
        out = []
        for c in lc.st.heap.values():
            if isinstance(c, ListCell) and c.seq is not None and c.seq.t == RS:
                r, n = c.seq.e, lc.idx
                t = lambda k: trunc(R(self.d[k]) * r[n])
                out += [self.MAP(r, 0) == z3.Empty(PS.sort()), z3.Implies(z3.And(0 <= n, n < z3.Length(r)), self.MAP(r, n + 1) == z3.Concat(self.MAP(r, n), z3.Unit(PAIR.mk(t(2), t(3)))))]
        return out

    lemmas_early = True

    def candidates(self, E, lc):
        if lc.it is None:
            return []
        Y = lc.st.ghost["$out"].e
        Rs = [c.seq.e for c in lc.st.heap.values() if isinstance(c, ListCell) and c.seq is not None and c.seq.t == RS]
        return [("yielded-so-far", self.prefix(E, Y, r, lc.idx)) for r in Rs]

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        Rs = [c.seq.e for c in st.heap.values() if isinstance(c, ListCell) and c.seq is not None and c.seq.t == RS]
        Y = st.ghost["$out"].e
        E.oblige(st, "one-size-per-resolution-rounded-down", _and([self.prefix(E, Y, r, z3.Length(r)) for r in Rs]) if len(Rs) == 1 else B(False))


# ------------------------------------------------- choice between exports
class Compare(Contract):
    fn = D + "settings:compare"
    def setup(self, E, st):
        self.p = [z3.Int(n) for n in ("pref_a", "size_a", "pref_b", "size_b")]
        pa, sa, pb, sb = self.p
        st.assume(pa > 0, pb > 0, sa >= 0, sb >= 0)
        ex = lambda p: st.alloc(ObjCell(Settings, {"preference": S(TInt, p)}))
        return [ex(pa), S(TInt, sa), ex(pb), S(TInt, sb)], {}

    def sizes(self):
        return self.p[1], self.p[3]

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        pa, _, pb, _ = self.p
        sa, sb = self.sizes()
        r = E.embed(st, res, TInt)
        ra, rb = z3.Reals("ra rb")
        st.assume(ra * R(pa) == R(sa), rb * R(pb) == R(sb))
        E.oblige(st, "smaller-size-per-preference-wins", z3.And(z3.Implies(ra < rb, r < 0), z3.Implies(ra > rb, r > 0), z3.Implies(ra == rb, r == 0)))


class CompareInFormat(Compare):
    fn = D + "settings:compare_in_format"

    def setup(self, E, st):
        (a, sa, b, sb), k = super().setup(E, st)
        self.mn = z3.Int("minimum_unit_size_bytes")
        fmt = st.alloc(ObjCell(Settings, {"minimum_unit_size_bytes": S(TInt, self.mn)}))
        return [fmt, a, sa, b, sb], k

    def sizes(self):
        f = lambda x: z3.If(x < self.mn, self.mn, x)
        return f(self.p[1]), f(self.p[3])


class AppliesTo(Contract):
    fn = D + "settings:ImageExport.applies_to"
    expect_paths = 1

    def setup(self, E, st):
        import importlib
        cls = importlib.import_module(D + "settings").ImageExport
        O = TOpt(TInt)
        self.lo, self.hi = O.const("min_area"), O.const("max_area")
        self.O = O
        self.w, self.h = z3.Int("width"), z3.Int("height")
        o = st.alloc(ObjCell(cls, {"min_area_px2": S(O, self.lo), "max_area_px2": S(O, self.hi)}))
        return [o, S(TInt, self.w), S(TInt, self.h)], {}

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        O, a = self.O, self.w * self.h
        want = z3.And(z3.Or(O.is_none(self.lo), a >= O.val(self.lo)), z3.Or(O.is_none(self.hi), a <= O.val(self.hi)))
        E.oblige(st, "exactly-the-areas-in-range", E.truth(st, res) == want if not isinstance(res, C) else want == B(bool(res.v)))


# --------------------------------------------------------- produced image
class Img:
    pass


class Log:
    pass


BOX = TTup(TInt, TInt, TInt, TInt)


class ProduceImage(Contract):
    """The picture saved is the cover_fit region of the source, at exactly the
    size asked for, once, under the name and format asked for."""
    fn = D + "exporter:produce_image"
    modular = ()
    expect_paths = 3

    def setup(self, E, st):
        import importlib
        m = importlib.import_module(D + "exporter")
        self.m = m
        Str = TStr
        self.src, self.dst, self.fmt = Str.const("src_file"), Str.const("dst_file"), Str.const("format")
        self.W, self.H, self.w, self.h = z3.Ints("image_width image_height width height")
        st.assume(self.W > 0, self.H > 0, self.w > 0, self.h > 0)
        cls = importlib.import_module(D + "metadata").CropSettingsCover
        self.crop = {f.name: (TReal if "percentage" in f.name else TInt) for f in dataclasses.fields(cls)}
        self.cv = {n: t.const(n) for n, t in self.crop.items()}
        cs = st.alloc(ObjCell(cls, {n: S(t, self.cv[n]) for n, t in self.crop.items()}))
        self.log = st.alloc(ObjCell(Log, {"saved": C(0), "img": C(None), "to": C(None), "format": C(None), "quality": C(None), "opened": C(None), "made": C(0), "kw": C(None)}))
        self.q = z3.Int("quality")
        kw = st.alloc(DictCell(items={"quality": S(TInt, self.q)}))
        self.box = z3.Function("cover", *[z3.IntSort()] * 4, *[z3.RealSort()] * 2, *[z3.IntSort()] * 4, BOX.sort())
        want = self.box(self.W, self.H, self.w, self.h, self.cv["crop_left_percentage"], self.cv["crop_top_percentage"], self.cv["pre_top_crop"], self.cv["pre_left_crop"], self.cv["pre_bottom_crop"], self.cv["pre_right_crop"])
        self.want = want
        x, y, w, h = (BOX.get(want, i) for i in range(4))
        st.assume(x >= 0, y >= 0, w >= 0, h >= 0, x + w <= self.W, y + h <= self.H)  # cover_fit's contract
        return [S(TStr, self.src), S(TStr, self.dst), S(TInt, self.w), S(TInt, self.h), C("cover"), cs, S(TStr, self.fmt), kw], {}

    def models(self):
        m = __import__(D + "exporter", fromlist=["x"])

        def cover(E, st, args, kw):
            vals = dict(zip(ARGS, args))
            vals.update(kw)
            e = []
            for n in ARGS:
                t = TReal if "percentage" in n else TInt
                v = vals.get(n, C(0.5) if t is TReal else C(0))
                e.append(E.embed(st, v, t))
            r = self.box(*e)
            return [(st, Tup([S(TInt, BOX.get(r, i)) for i in range(4)]))]

        def image_open(E, st, args, kw):
            c = st.heap[self.log.lid]
            st.heap[self.log.lid] = ObjCell(Log, {**c.fields, "opened": args[0]})
            return [(st, st.alloc(ObjCell(Img, {"width": S(TInt, self.W), "height": S(TInt, self.H), "box": Tup([C(0), C(0), S(TInt, self.W), S(TInt, self.H)]), "scaled": C(False)})))]

        def asdict(E, st, args, kw):
            return [(st, st.alloc(DictCell(items=dict(st.heap[args[0].lid].fields))))]

        def mk(E, st, args, kw):
            c = st.heap[self.log.lid]
            st.heap[self.log.lid] = ObjCell(Log, {**c.fields, "made": C(c.fields["made"].v + 1)})
            return [(st, NONE)]
        import os, time
        return {m.cover_fit: cover, m.Image.open: image_open, dataclasses.asdict: asdict, m.makedirs_safely: mk,
                os.path.dirname: lambda E, st, a, k: [(st, S(TStr, TStr.fresh("dir")))], time.perf_counter: lambda E, st, a, k: [(st, S(TReal, TReal.fresh("now")))]}

    def call_hook(self, E, st, f, args, kwargs):
        if isinstance(f, C) and getattr(f.v, "__self__", None).__class__.__module__.startswith("loguru"):
            return [(st, NONE)]
        return None

    def method_hook(self, E, st, recv, name, args, kwargs):
        if not (isinstance(recv, L) and isinstance(st.heap[recv.lid], ObjCell) and st.heap[recv.lid].cls is Img):
            return None
        f = st.heap[recv.lid].fields
        if name == "crop":
            x0, y0, x1, y1 = (S(TInt, E.embed(st, v, TInt)) for v in args[0].items)
            bx = [E.embed(st, v, TInt) for v in f["box"].items]
            nb = Tup([S(TInt, bx[0] + x0.e), S(TInt, bx[1] + y0.e), S(TInt, bx[0] + x1.e), S(TInt, bx[1] + y1.e)])
            return [(st, st.alloc(ObjCell(Img, {"width": S(TInt, x1.e - x0.e), "height": S(TInt, y1.e - y0.e), "box": nb, "scaled": f["scaled"]})))]
        if name == "resize":
            w, h = args[0].items
            return [(st, st.alloc(ObjCell(Img, {"width": w, "height": h, "box": f["box"], "scaled": C(True)})))]
        if name == "save":
            c = st.heap[self.log.lid]
            st.heap[self.log.lid] = ObjCell(Log, {**c.fields, "saved": C(c.fields["saved"].v + 1), "img": recv, "to": args[0], "format": kwargs.get("format", args[1] if len(args) > 1 else C(None)), "quality": kwargs.get("quality", C(None))})
            return [(st, NONE)]
        if name == "close":
            return [(st, NONE)]
        return None

    def post(self, E, pre, st, res):
        if not self.no_raise(E, st, res):
            return
        lg = st.heap[self.log.lid].fields
        E.oblige(st, "saved-exactly-once", B(lg["saved"].v == 1))
        if lg["saved"].v != 1:
            return
        f = st.heap[lg["img"].lid].fields
        emb = lambda v: E.embed(st, v, TInt)
        E.oblige(st, "opens-the-source", E.embed(st, lg["opened"], TStr) == self.src)
        E.oblige(st, "exactly-the-size-asked-for", z3.And(emb(f["width"]) == self.w, emb(f["height"]) == self.h))
        x, y, w, h = (BOX.get(self.want, i) for i in range(4))
        bx = [emb(v) for v in f["box"].items]
        E.oblige(st, "shows-exactly-the-cover-fit-region", z3.And(bx[0] == x, bx[1] == y, bx[2] == x + w, bx[3] == y + h))
        E.oblige(st, "under-the-name-and-format-asked-for", z3.And(E.embed(st, lg["to"], TStr) == self.dst, B(lg["format"] is not C(None)) if isinstance(lg["format"], C) else E.embed(st, lg["format"], TStr) == self.fmt))
        E.oblige(st, "with-the-formatter-settings", B(False) if isinstance(lg["quality"], C) else E.embed(st, lg["quality"], TInt) == self.q)
        E.oblige(st, "folder-made-first", B(lg["made"].v >= 1))


CONTRACTS = {"C12": [CoverFit, CoverFitPlain, Resolutions, Sizes, Compare, CompareInFormat, AppliesTo, ProduceImage]}
