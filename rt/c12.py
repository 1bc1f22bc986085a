"""Image geometry against exact rational arithmetic, and whole exports of small
real pictures."""
import os
import shutil
from fractions import Fraction as Fr
from decimal import Decimal

RULE = "random and extreme source/target sizes, crop percentages and pre-crops; random resolution settings; random exports of small real pictures with several formats; non-trivial always"
CASE_LIMIT = 40


def preload():
    from PIL import Image
    Image.init()
    import vanillaplusjs.build.html.manips.images.exporter


def fixed():
    out = []
    n = [1, 2, 3, 5, 7]
    for sw in n:
        for sh in n:
            for dw in n:
                for dh in n:
                    out.append({"fit": [sw, sh, dw, dh], "pct": [0.5, 0.5], "crop": [0, 0, 0, 0]})
    for p in ([0, 0], [1, 1], [0.25, 0.75], [0, 1]):
        for c in ([0, 0, 0, 0], [1, 0, 0, 0], [0, 2, 0, 0], [0, 0, 3, 0], [0, 0, 0, 4], [1, 2, 3, 4], [5, 0, 5, 0], [0, 6, 0, 4], [9, 0, 1, 0]):
            for d in ([4, 2], [2, 4], [10, 10], [3, 3], [1, 9]):
                out.append({"fit": [10, 10] + d, "pct": p, "crop": c})
    for mx in (1, 2, 3, 5):
        for st in ("1", "0.5", "0.75", "2", "0.1", "0.333"):
            for d in ([10, 10, 10, 10], [100, 40, 10, 10], [100, 100, 7, 13], [9, 9, 10, 10], [30, 30, 10, 10], [31, 29, 10, 10], [1000, 1000, 3, 7]):
                out.append({"res": d, "max": mx, "step": st})
    k = 0
    for d in ([40, 30], [20, 40]):
        for t in ([10, 10], [20, 10], [5, 20], [13, 7]):
            k += 1
            out.append({"export": d, "target": t, "max": 3, "step": ["1", "0.5"][k % 2], "pct": [[0.5, 0.5], [0, 1], [0.25, 0.8]][k % 3], "crop": [[0, 0, 0, 0], [1, 2, 3, 4]][k % 2], "fmts": k % 4, "seed": k})
    for a in range(0, 30, 7):
        for pa in (1, 2, 3):
            out.append({"cmp": [a, pa, 14, 2, 10], "area": [5, 5, a, None]})
            out.append({"cmp": [a, pa, 15, 3, 0], "area": [5, 5, None, a]})
    return out


def rand(rng):
    k = rng.random()
    side = lambda: rng.choice([rng.randint(1, 12), rng.randint(1, 200), rng.randint(1, 5000), rng.randint(1, 60000)])
    pct = lambda: rng.choice([0, 0.5, 1, 0.25, 0.1, round(rng.random(), 3)])
    if k < 0.55:
        d = [side() for _ in range(4)]
        crop = [0, 0, 0, 0]
        if rng.random() < 0.5:
            crop = [rng.choice([0, rng.randint(0, max(1, d[i % 2 == 0] // 2)), rng.randint(0, d[i % 2 == 0])]) for i in range(4)]
        if rng.random() < 0.2:
            g = rng.randint(1, 50)
            d[0], d[1] = d[2] * g, d[3] * g
        return {"fit": d, "pct": [pct(), pct()], "crop": crop}
    if k < 0.8:
        return {"res": [side(), side(), side() // 4 + 1, side() // 4 + 1], "max": rng.randint(1, 9), "step": rng.choice(["1", "0.5", "0.25", "0.1", "2", "1.5", "0.7"])}
    if k < 0.97:
        return {"cmp": [rng.randint(0, 40), rng.randint(1, 5), rng.randint(0, 40), rng.randint(1, 5), rng.randint(0, 30)], "area": [rng.randint(1, 9), rng.randint(1, 9), rng.choice([None, rng.randint(0, 60)]), rng.choice([None, rng.randint(0, 60)])]}
    sw, sh = rng.randint(6, 60), rng.randint(6, 60)
    return {"export": [sw, sh], "target": [rng.randint(2, sw), rng.randint(2, sh)], "max": rng.randint(1, 4), "step": rng.choice(["1", "0.5", "1.5"]), "pct": [pct(), pct()], "crop": rng.choice([[0, 0, 0, 0], [rng.randint(0, 2) for _ in range(4)]]), "fmts": rng.randint(0, 3), "seed": rng.randint(0, 99)}


def exact(sw, sh, dw, dh, lp, tp, pt, pl, pb, pr):
    """None when nothing is left; else (x, y, w, h) with exact sides."""
    W, H = sw - pl - pr, sh - pt - pb
    if W <= 0 or H <= 0:
        return None
    if W * dh > dw * H:
        return "w", pl, pt, Fr(dw * H, dh), H, W, H
    if W * dh < dw * H:
        return "h", pl, pt, W, Fr(dh * W, dw), W, H
    return "=", pl, pt, W, H, W, H


def check_rect(r, a):
    sw, sh, dw, dh, lp, tp, pt, pl, pb, pr = a
    e = exact(*a)
    if e is None:
        return "gave a rectangle although nothing is left after the pre-crop"
    kind, bx, by, ew, eh, W, H = e
    x, y, w, h = r
    if not all(isinstance(v, int) for v in r):
        return "sides are not integers"
    tol = Fr(1, 2) + Fr(1, 10**7)
    if abs(w - ew) > tol or abs(h - eh) > tol:
        return f"size {w}x{h}, exactly {float(ew)}x{float(eh)}"
    wx, wy = bx, by
    if kind == "w":
        wx += int((W - w) * Fr(str(lp)))
    if kind == "h":
        wy += int((H - h) * Fr(str(tp)))
    if abs(x - wx) > (0 if isinstance(lp, int) or lp in (0.5, 0.25) else 1) or abs(y - wy) > (0 if isinstance(tp, int) or tp in (0.5, 0.25) else 1):
        return f"offset {x},{y}, expected {wx},{wy}"
    if x < pl or y < pt or x + w > sw - pr or y + h > sh - pb:
        return "leaves the source"
    return None


class Ctx:
    pass


def run(case):
    if "fit" in case:
        from vanillaplusjs.build.html.manips.images.cover_fit import cover_fit
        a = case["fit"] + case["pct"] + case["crop"]
        try:
            r = cover_fit(**dict(zip(["source_width", "source_height", "dest_width", "dest_height", "crop_left_percentage", "crop_top_percentage", "pre_top_crop", "pre_left_crop", "pre_bottom_crop", "pre_right_crop"], a)))
        except Exception as e:
            if isinstance(e, ValueError) and exact(*a) is None:
                return None
            return f"cover_fit{tuple(a)} raised {type(e).__name__}: {e}"
        m = check_rect(r, a)
        return m and f"cover_fit{tuple(a)} = {tuple(r)}: {m}"
    if "res" in case:
        return res(case)
    if "cmp" in case:
        return cmp_(case)
    return export(case)


def steps(d, mx, step):
    sw, sh, dw, dh = d
    r, st = Fr(1), Fr(step)
    while sw >= dw * r and sh >= dh * r and r <= mx:
        yield r
        r += st


def res(case):
    from vanillaplusjs.build.html.manips.images.resolutions import yield_resolutions, yield_sizes
    c = Ctx()
    c.image_settings = Ctx()
    c.image_settings.maximum_resolution = case["max"]
    c.image_settings.resolution_step = Decimal(case["step"])
    want = list(steps(case["res"], case["max"], case["step"]))
    if len(want) > 2000:
        return None
    got = [Fr(r) for r in yield_resolutions(c, *case["res"])]
    if got != want:
        return f"resolutions {[float(x) for x in got][:12]}, expected {[float(x) for x in want][:12]} for {case}"
    dw, dh = case["res"][2:]
    ws = [(int(dw * r), int(dh * r)) for r in want]
    gs = [tuple(x) for x in yield_sizes(c, *case["res"])]
    if gs != ws:
        return f"sizes {gs[:12]}, expected {ws[:12]} for {case}"
    return None


def cmp_(case):
    from vanillaplusjs.build.html.manips.images import settings as s
    sa, pa, sb, pb, mn = case["cmp"]
    ex = lambda p: s.ImageExport(None, None, p, {})
    sign = lambda x: (x > 0) - (x < 0)
    a, b = ex(pa), ex(pb)
    want = sign(Fr(sa, pa) - Fr(sb, pb))
    if sign(s.compare(a, sa, b, sb)) != want:
        return f"compare(size {sa} preference {pa}, size {sb} preference {pb}) has the wrong sign"
    want = sign(Fr(max(sa, mn), pa) - Fr(max(sb, mn), pb))
    if sign(s.compare_in_format(s.ImageFormat("x", {}, mn), a, sa, b, sb)) != want:
        return f"compare_in_format with minimum {mn}: ({sa}, {pa}) against ({sb}, {pb}) has the wrong sign"
    w, h, lo, hi = case["area"]
    want = (lo is None or w * h >= lo) and (hi is None or w * h <= hi)
    if bool(s.ImageExport(lo, hi, 1, {}).applies_to(w, h)) != want:
        return f"applies_to({w}, {h}) with area in [{lo}, {hi}] is not {want}"
    return None


FMTS = [
    {"png": {"a": {"preference": 1}}},
    {"jpeg": {"hi": {"preference": 3, "formatter_kwargs": {"quality": 95}}, "lo": {"preference": 2, "formatter_kwargs": {"quality": 20}}}, "png": {"a": {"preference": 1}}},
    {"png": {"small": {"preference": 1, "max_area_px2": 150, "formatter_kwargs": {"compress_level": 0}}, "big": {"preference": 1, "min_area_px2": 100}}, "bmp": {"x": {"preference": 1, "min_area_px2": 1}}},
    {"bmp": {"a": {"preference": 5}, "b": {"preference": 5}}, "png": {"z": {"preference": 1, "formatter_kwargs": {"compress_level": 0}}, "y": {"preference": 1, "formatter_kwargs": {"compress_level": 9}}}},
]


def picture(w, h):
    from PIL import Image
    im = Image.new("RGB", (w, h))
    im.putdata([(x * 255 // max(1, w - 1), y * 255 // max(1, h - 1), (x * 7 + y * 13) % 256) for y in range(h) for x in range(w)])
    return im


def export(case):
    from PIL import Image
    import concurrent.futures
    from rt.sync import SyncExecutor
    from vanillaplusjs.build.build_context import BuildContext
    from vanillaplusjs.build.html.manips.images import exporter, scanner, settings as s, command
    import io
    shutil.rmtree("p", ignore_errors=True)
    os.makedirs("p/src/public/img")
    os.makedirs("p/out/www/img")
    sw, sh = case["export"]
    im = picture(sw, sh)
    im.save("p/src/public/img/a.png")
    with open("p/out/www/img/a.png.hash", "w") as f:
        f.write("h" + str(case["seed"]))
    ctx = BuildContext(os.path.abspath("p"), dev=True, symlinks=False)
    fm = FMTS[case["fmts"]]
    mn = [0, 500][case["seed"] % 2]
    default = list(fm)[-1]
    ctx.image_settings = s.load_image_settings({"formats": {k: {"exports": v, "minimum_unit_size_bytes": mn} for k, v in fm.items()}, "default_format": default, "maximum_resolution": case["max"], "resolution_step": case["step"]})
    pt, pl, pb, pr = case["crop"]
    lp, tp = case["pct"]
    dw, dh = case["target"]
    cmd = command.ImageCommand(path="/img/a.png", width=dw, height=dh, crop_style="cover", crop_arguments={"pre_top_crop": pt, "pre_left_crop": pl, "pre_bottom_crop": pb, "pre_right_crop": pr, "crop_left_percentage": lp, "crop_top_percentage": tp}, lazy=True)
    hf = os.path.join(ctx.folder, "src/public/index.html")
    scan = scanner.scan_command(ctx, hf, cmd)
    old = concurrent.futures.ProcessPoolExecutor
    exporter.concurrent.futures.ProcessPoolExecutor = SyncExecutor
    try:
        meta, br = exporter.export_command(ctx, hf, cmd)
        meta2, br2 = exporter.export_command(ctx, hf, cmd)
    finally:
        exporter.concurrent.futures.ProcessPoolExecutor = old
    if meta2 != meta:
        return f"reusing the export gives other metadata for {case}"
    sizes = [(int(dw * r), int(dh * r)) for r in steps([sw, sh, dw, dh], case["max"], case["step"])]
    extra = set(br.produced) - set(scan.produces)
    if extra:
        return f"produced files that the scan did not announce: {sorted(extra)} for {case}"
    if sorted(set(br2.produced + br2.reused)) != sorted(set(br.produced + br.reused)):
        return f"reusing names other files than producing: {sorted(set(br2.produced + br2.reused) ^ set(br.produced + br.reused))} for {case}"
    seen = set()
    for fmt, exps in fm.items():
        outs = meta.target.outputs.get(fmt, [])
        k = 0
        for w, h in sizes:
            best = None
            for name, ex in exps.items():
                area = w * h
                if area < ex.get("min_area_px2", 0) or area > ex.get("max_area_px2", 10**9):
                    continue
                (x, y, cw, ch), msg = region(sw, sh, w, h, lp, tp, pt, pl, pb, pr)
                if msg:
                    return msg
                pic = im.crop((x, y, x + cw, y + ch)) if (x, y, cw, ch) != (0, 0, sw, sh) else im
                if pic.size != (w, h):
                    pic = pic.resize((w, h), Image.Resampling.LANCZOS)
                b = io.BytesIO()
                pic.save(b, format=fmt, **ex.get("formatter_kwargs", {}))
                score = Fr(max(len(b.getvalue()), mn), ex["preference"])
                if best is None or score < best[0]:
                    best = (score, name, b.getvalue())
            if best is None:
                continue
            if k >= len(outs):
                return f"no {fmt} output for {w}x{h} for {case}"
            o = outs[k]
            k += 1
            if (o.width, o.height) != (w, h):
                return f"{fmt} output {k} is {o.width}x{o.height}, expected {w}x{h} for {case}"
            if o.choice != best[1]:
                return f"{fmt} {w}x{h}: export {o.choice!r} chosen, {best[1]!r} has the smaller size per preference for {case}"
            for base in ("artifacts", "out/www"):
                p = os.path.join("p", base, o.relpath)
                if not os.path.exists(p):
                    return f"{base}/{o.relpath} is missing for {case}"
                if os.path.relpath(p, "p") not in br.produced:
                    return f"{os.path.relpath(p, 'p')} is not reported as produced for {case}"
                with open(p, "rb") as f:
                    if f.read() != best[2]:
                        return f"{base}/{o.relpath} is not the {w}x{h} cover-fit picture for {case}"
                seen.add(os.path.realpath(p))
        if k != len(outs):
            return f"{fmt} has {len(outs)} outputs, expected {k} for {case}"
    for d, _, fs in os.walk("p"):
        for f in fs:
            p = os.path.join(d, f)
            if ("/artifacts/" in p or "/out/www/" in p) and p.rsplit(".", 1)[-1] in ("png", "jpeg", "bmp") and os.path.realpath(p) not in seen:
                return f"leftover file {p} for {case}"
    return None


def region(sw, sh, w, h, lp, tp, pt, pl, pb, pr):
    """The code's own rectangle, once it has been checked exactly."""
    from vanillaplusjs.build.html.manips.images.cover_fit import cover_fit
    a = (sw, sh, w, h, lp, tp, pt, pl, pb, pr)
    try:
        r = cover_fit(*a)
    except Exception as e:
        return None, f"cover_fit{a} raised {type(e).__name__}: {e}"
    m = check_rect(r, a)
    return r, m and f"cover_fit{a} = {r}: {m}"
