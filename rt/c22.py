"""Publishing plain files: random small projects, some with outputs already
there, against what the project's files say."""
import base64
import hashlib
import os
import tempfile

RULE = "random files of random bytes at paths in and next to src/public, with outputs already there or not, links or copies, the project folder absolute or relative with odd names; scanned, then built; non-trivial when the file is to be published"
CASE_LIMIT = 20
PATHS = ["src/public/a.txt", "src/public/img/b.bin", "src/public/robots", "src/public/x/y/z.hash", "src/public/src/public/q.dat", "src/public/out/www/q.dat", "src/publicity/a.txt", "src/public.txt", "src/publi", "src/partials/p.txt", "src/out/www/a.txt",
         "src/public/é ü.txt", "src/public/.htaccess"]
OTHER = ["src/publicity/a.css", "src/partials/a.js", "src/partials/a.html", "src/publicx.js", "src/publics/a.images.json", "src/publicity/a.images.js"]


def preload():
    import vanillaplusjs.build.build_file
    import vanillaplusjs.build.scan_file


def fixed():
    return [{"path": p, "data": "", "have": h, "symlinks": s} for p in PATHS + OTHER for h in ([], ["file"], ["hash"], ["file", "hash"]) for s in (False, True)]


def rand(rng):
    return {"path": rng.choice(PATHS * 3 + OTHER), "data": bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 300]))).hex(), "have": [k for k in ("file", "hash") if rng.random() < 0.3], "symlinks": rng.random() < 0.3}


def nontrivial(case):
    return case["path"].startswith("src/public/")


def tree(d):
    r = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                r[os.path.relpath(p, d)] = f.read()
    return r


def run(case):
    from vanillaplusjs.build.build_context import BuildContext, JSConstants
    from vanillaplusjs.build.build_file import build_file
    from vanillaplusjs.build.scan_file import scan_file
    rel, data = case["path"], bytes.fromhex(case["data"])
    if rel in OTHER:
        data = b""
    with tempfile.TemporaryDirectory() as d:
        d = os.path.join(d, "pr oject.src")
        target = "out/www/" + rel[len("src/public/"):] if rel.startswith("src/public/") else None
        want = {rel: data}
        if target:
            full = {target: data, target + ".hash": base64.urlsafe_b64encode(hashlib.sha256(data).digest())}
            for k, p in (("file", target), ("hash", target + ".hash")):
                if k in case["have"]:
                    want[p] = b"kept"
        for p, b in want.items():
            os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
            with open(os.path.join(d, p), "wb") as f:
                f.write(b)
        before = dict(want)
        if target:
            for p, b in full.items():
                want.setdefault(p, b)
        ctx = BuildContext(folder=d, dev=False, symlinks=case["symlinks"], js_constants=JSConstants("src/public/js/constants.js", {}, {}, {}), delay_files=[])
        try:
            s = scan_file(ctx, rel)
            if tree(d) != before:
                return f"{case}: scanning changed the project"
            b = build_file(ctx, rel)
        except Exception as e:
            return f"{case}: {type(e).__name__}: {e}"
        got = tree(d)
        if got != want:
            return f"{case}: the project holds {got}, expected {want}"
        new = sorted(set(want) - set(before))
        old = sorted(set(before) - {rel})
        exp = ([], sorted(new + old), [], new, old)
        is_ = (list(s.dependencies), sorted(s.produces), list(b.children), sorted(b.produced), sorted(b.reused))
        if is_ != exp:
            return f"{case}: reported {is_}, expected {exp}"
    return None
