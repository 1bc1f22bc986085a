"""Incremental builds against clean ones."""
import os
import random
import shutil
import tempfile

from rt import project as P

RULE = "random histories of edits, additions, deletions, touches and mode switches of small projects of pages, partials, styles, scripts, constants and plain files that refer to one another, built after every step, some of them with a file saved while the build runs, against a clean build of the same sources; non-trivial when some step changes some of the files of a project already built"
CASE_LIMIT = 60
preload = P.preload


def fixed():
    return []


def rand(rng):
    return {"steps": P.history(rng, rng.choice([2, 2, 3, 3, 4, 6]), broken=rng.choice([0, 0, 0.3])), "order": rng.randrange(1000)}


def nontrivial(case):
    return any(s["change"] for s in case["steps"][1:])


STATE = ("out/js_constants_mode.txt",)


def outputs(d):
    return {p: b for sub in ("out", "artifacts") for p, b in P.tree(d, sub).items() if p.startswith("out/www/") or p.startswith("artifacts/")}


def run(case):
    from rt import sync
    sync.ORDER = random.Random(case.get("order", 0))
    with tempfile.TemporaryDirectory() as top:
        inc = os.path.join(top, "inc")
        P.start(inc)
        src = {}
        log = []
        for i, s in enumerate(case["steps"]):
            for p, spec in s["change"].items():
                if spec is None:
                    src.pop(p, None)
                    if os.path.exists(os.path.join(inc, p)):
                        os.unlink(os.path.join(inc, p))
                else:
                    src[p] = P.render(p, spec)
                    P.put(inc, p, src[p], bool(spec.get("swap")))
            at = f"step {i} of {len(case['steps'])}"
            if s.get("mid"):
                left = [s["at"]]

                def save():
                    left[0] -= 1
                    if left[0] == -1:
                        for p, spec in s["mid"].items():
                            src[p] = P.render(p, spec)
                            P.put(inc, p, src[p])

                sync.MEANWHILE = save
                P.build(inc, s["dev"])
                sync.MEANWHILE = None
                while left[0] >= 0:
                    save()
            clean = os.path.join(top, f"clean{i}")
            P.start(clean)
            for p, t in src.items():
                P.put(clean, p, t)
            want = P.build(clean, s["dev"])
            got = P.build(inc, s["dev"])
            if (want is None) != (got is None):
                return f"{at}: the clean build {'fails with ' + repr(want)[:300] if want else 'succeeds'}, the incremental one {'fails with ' + repr(got)[:300] if got else 'succeeds'}"
            have, should = P.tree(inc, "src", False), {p: t.encode() for p, t in src.items()}
            if have != should:
                return f"{at}: the build changed the sources: {sorted(set(have.items()) ^ set(should.items()))[:2]}"
            if want is None:
                a, b = outputs(inc), outputs(clean)
                if a != b:
                    p = sorted(set(k for k in set(a) | set(b) if a.get(k) != b.get(k)))
                    return f"{at}: {p[0]} holds {a.get(p[0])!r}, in a clean build {b.get(p[0])!r} (of {len(p)} differences)"
                ga, gb = P.graphs(inc), P.graphs(clean)
                for k in gb:
                    if ga.get(k) != gb[k]:
                        return f"{at}: the {k} differs: {sorted(set(map(str, (ga.get(k) or {}).items())) ^ set(map(str, gb[k].items())))[:4]}"
                before = P.stats(inc)
                err = P.build(inc, s["dev"])
                if err is not None or P.stats(inc) != before:
                    return f"{at}: building again with nothing changed {'fails: ' + repr(err) if err else 'writes files'}"
            shutil.rmtree(clean)
    return None
