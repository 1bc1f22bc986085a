"""What a scan announces against what a build does, file by file."""
import os
import tempfile

from rt import project as P

RULE = "random small projects of pages, partials, styles, scripts, constants and plain files that refer to one another, in and beside src/public, built; then every file scanned again and compared with what the stored graphs say of its build; non-trivial when some file of at least two kinds is published"
CASE_LIMIT = 40
preload = P.preload
MORE = ["src/public/a.html.txt", "src/public/b.css.js", "src/public/c.js.css", "src/public/html", "src/publicity/d.html", "src/public/e.HTML", "src/public/f.mjs", "src/partials/g.css", "src/h.js", "src/public/js/constants.js.txt", "src/public/js/constants.css", "src/public/k.js.html"]


def fixed():
    return []


def rand(rng):
    have = [p for p in P.ALL if rng.random() < 0.7] + [p for p in MORE if rng.random() < 0.5]
    return {"files": {p: {"n": rng.randrange(100), "refs": P.rand_refs(rng, p, set(have)) if p in P.ALL else []} for p in have}, "dev": rng.random() < 0.5}


def nontrivial(case):
    return len({os.path.splitext(p)[1] for p in case["files"] if p.startswith("src/public/")}) > 1


def run(case):
    from vanillaplusjs.build.build_file import build_file
    from vanillaplusjs.build.scan_file import scan_file
    with tempfile.TemporaryDirectory() as d:
        P.start(d)
        for p, spec in case["files"].items():
            P.put(d, p, P.render(p, spec))
        err = P.build(d, case["dev"])
        if err is not None:
            return f"the build fails: {err!r}"
        made = {p for p in P.tree(d, "out/www", False)}
        g = P.graphs(d)
        ctx = P.context(d, case["dev"])
        outs = {p: set(c) for p, c in g["output_graph"].items() if p.startswith("src")}
        maker = {o: p for p, c in outs.items() for o in c}
        if set().union(*outs.values()) != made:
            return f"on disk and reported by no file, or the reverse: {sorted(set().union(*outs.values()) ^ made)[:4]}"
        for p in sorted(P.tree(d, "src", False)):
            before = P.stats(d)
            r = scan_file(ctx, p)
            if P.stats(d) != before:
                return f"scanning {p} writes files"
            if set(r.produces) != outs.get(p, set()):
                return f"{p}: the scan announces {sorted(r.produces)}, the build made {sorted(outs.get(p, ()))}"
            deps = {maker.get(x, x) for x in r.dependencies} - {p}
            kids = set(g["dependency_graph"].get(p, ()))
            if deps != kids:
                return f"{p}: the scan depends on {sorted(deps)}, the build on {sorted(kids)}"
            b = build_file(ctx, p)
            if set(b.produced) | set(b.reused) != set(r.produces):
                return f"{p}: built again it reports {sorted(set(b.produced) | set(b.reused))}, announced was {sorted(r.produces)}"
            if {maker.get(x, x) for x in b.children} - {p} != deps:
                return f"{p}: built again it refers to {sorted(b.children)}, the scan to {sorted(r.dependencies)}"
            kind = want_outputs(p)
            missing = {x for x in kind if x not in outs.get(p, set())} if kind else set()
            if missing:
                return f"{p} is not published as {sorted(missing)}"
            if not kind and outs.get(p):
                return f"{p}, outside src/public, is published as {sorted(outs[p])}"
            if p != P.CONST and os.path.splitext(p)[1] not in (".html", ".css", ".js") and kind:
                with open(os.path.join(d, p), "rb") as f, open(os.path.join(d, kind[0]), "rb") as f2:
                    if f.read() != f2.read():
                        return f"{p} is not published as it is"
    return None


def want_outputs(p):
    if not p.startswith("src/public/"):
        return []
    t = "out/www/" + p[len("src/public/"):]
    return [t, t + ".hash"]
