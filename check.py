#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Decides one property: discharges every proof obligation of the contracts the
property rests on (generated from /repo's current source), then evaluates the
property's run-time contract on the real code (bounded stand-in), then gives
the verdict.  Exit 0: held.  Exit 1: a VIOLATION line was printed."""
import os
import sys

os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", HERE)
sys.path[:0] = [REPO, HERE]
sys.path.append("/opt/venv/lib/python3.12/site-packages")

import importlib
import json
import multiprocessing as mp
import signal
import subprocess
import tempfile
import time

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
NPROC = min(8, os.cpu_count() or 4)
CONTRACT_LIMIT = {"quick": 260, "thorough": 500}[TIER]
RT_BUDGET = float(os.environ.get("VERIF_RT", {"quick": 25, "thorough": 300}[TIER]))


def contracts_for(prop):
    out = []
    for f in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        if f.endswith(".py") and f != "__init__.py":
            m = importlib.import_module("contracts." + f[:-3])
            for c in getattr(m, "CONTRACTS", {}).get(prop, []):
                if c not in out:
                    out.append(c)
    return out


def _prove_one(ccls, path):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(20000)
    from vc.contracts import verify
    rep = verify(ccls, TIER)
    from vc import solver
    d = rep.to_dict()
    d["solver"] = solver.STATS
    with open(path, "w") as f:
        json.dump(d, f, default=str)


def prove_all(prop):
    """Each contract in its own process; -> list of report dicts."""
    cs = contracts_for(prop)
    todo = sorted(cs, key=lambda c: -getattr(c, "cost", 1))
    running, reports = [], {}
    tmp = tempfile.mkdtemp(prefix="vc_")
    ctx = mp.get_context("fork")
    i = 0
    while todo or running:
        while todo and len(running) < NPROC:
            c = todo.pop(0)
            path = os.path.join(tmp, f"{i}.json")
            i += 1
            p = ctx.Process(target=_prove_one, args=(c, path))
            p.start()
            running.append((p, c, path, time.time()))
        time.sleep(0.02)
        still = []
        for p, c, path, t in running:
            if p.is_alive() and time.time() - t < CONTRACT_LIMIT:
                still.append((p, c, path, t))
                continue
            killed = p.is_alive()
            if killed:
                p.kill()
            p.join()
            try:
                with open(path) as f:
                    reports[c.label()] = json.load(f)
            except (OSError, ValueError):
                reports[c.label()] = {"name": c.label(), "fn": c.fn, "obligations": [], "unsupported": "verifier ran out of time" if killed else f"verifier process ended with {p.exitcode}", "error": None, "ok": False, "secs": round(time.time() - t, 1), "inlined": [], "used": [], "loops": [], "lines": None, "paths": 0, "solver": {}}
            if os.path.exists(path):
                os.unlink(path)
        running = still
    os.rmdir(tmp)
    return [reports[c.label()] for c in cs]


def run_rt(prop, budget, seed, extra_cases=()):
    """Bounded run-time evaluation of the property's contract in NPROC worker
    processes. -> dict(evaluations, distinct, nontrivial, failures, errors, samples)"""
    if not os.path.exists(os.path.join(HERE, "rt", prop.lower() + ".py")):
        return None
    tmp = tempfile.mkdtemp(prefix="rt_")
    res = {"evaluations": 0, "distinct": 0, "nontrivial": 0, "failures": [], "errors": [], "samples": [], "rule": ""}
    xp = os.path.join(tmp, "extra.json")
    with open(xp, "w") as f:
        json.dump(list(extra_cases), f)
    procs = []
    for w in range(NPROC):
        out = os.path.join(tmp, f"{w}.json")
        cmd = [sys.executable, os.path.join(HERE, "rtworker.py"), prop, str(w), str(NPROC), str(seed), str(budget), TIER, out, xp]
        log = open(os.path.join(tmp, f"{w}.log"), "w")
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, start_new_session=True, env={**os.environ, "PYTHONHASHSEED": str((seed * 31 + w) % 4294967295)}), out, log))
    end = time.time() + budget + 90
    seen = set()
    for p, out, log in procs:
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        log.close()
        try:
            with open(out) as f:
                d = json.load(f)
            res["evaluations"] += d["evaluations"]
            seen |= set(d["hashes"])
            res["nontrivial"] += d["nontrivial"]
            res["failures"] += d["failures"]
            res["errors"] += d["errors"]
            res["samples"] += d["samples"][:1]
            res["rule"] = d["rule"]
            res["known"] = res.get("known", {})
            res["known"].update(d.get("known", {}))
        except (OSError, ValueError):
            with open(log.name) as f:
                res["errors"].append("worker gave no result: " + f.read()[-1500:])
        for x in (out, log.name):
            if os.path.exists(x):
                os.unlink(x)
    os.unlink(xp)
    os.rmdir(tmp)
    res["distinct"] = len(seen)
    res["samples"] = res["samples"][:4]
    return res


def main():
    t0 = time.time()
    prop = sys.argv[1].upper()
    if "--replay" in sys.argv:
        return replay(prop, sys.argv[sys.argv.index("--replay") + 1])
    reports = prove_all(prop)
    proof_s = time.time() - t0
    failed = []
    undecided = []
    for r in reports:
        if r["unsupported"]:
            undecided.append((r["name"], r["unsupported"]))
        elif r["error"] and not r["error"].startswith(("vacuous", "only", "no obligations")):
            undecided.append((r["name"], "verifier error: " + r["error"]))
        elif not r["ok"]:
            failed.append(r)
    extra = [o["case"] for r in failed for o in r["obligations"] if o.get("case")]
    budget = RT_BUDGET
    rt = run_rt(prop, budget, SEED, extra)
    if rt is not None and not rt["failures"] and (failed or undecided):
        rt2 = run_rt(prop, min(240, budget * 3), SEED + 1000)
        for k in ("evaluations", "distinct", "nontrivial"):
            rt[k] += rt2[k]
        rt["failures"] += rt2["failures"]
        rt["errors"] += rt2["errors"]
    # ---- verdict
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    known = load_known(prop)
    nob = sum(len(r["obligations"]) for r in reports)
    ndis = sum(o["status"] == "proved" for r in reports for o in r["obligations"])
    lines = []
    violations = 0
    for kf in known:
        lines.append(f"KNOWN-FINDING: property={prop} {kf['what']}")
    if rt is not None and rt["failures"]:
        f = min(rt["failures"], key=lambda x: len(json.dumps(x["case"])))
        path = os.path.join(OUT, "replays", f"{prop}.json")
        with open(path, "w") as fp:
            json.dump({"property": prop, "case": f["case"], "message": f["message"], "replay": f"cd {HERE} && python3-vt check.py {prop} --replay {path}", "failed_obligations": summarize(failed)}, fp, indent=1)
        print(f"{prop}: {f['message'][:1500]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        violations = len(rt["failures"])
    elif failed:
        path = os.path.join(OUT, "replays", f"{prop}.json")
        with open(path, "w") as fp:
            json.dump({"property": prop, "failed_obligations": summarize(failed, 40), "verifier": "vc (z3, cvc5) over " + REPO}, fp, indent=1)
        for r in failed:
            print(f"{prop}: {r['name']} ({r['lines']}): {r['error'] or ', '.join(o['name'] for o in r['obligations'] if o['status'] != 'proved')[:800]}")
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        violations = 1
    ev = evidence(prop, reports, rt, nob, ndis, undecided, violations, time.time() - t0, proof_s)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    print(f"{prop}: {len(reports)} functions under contract, {ndis}/{nob} obligations discharged in {proof_s:.1f}s" + (f"; bounded run-time contract: {rt['evaluations']} evaluations, {rt['distinct']} distinct" if rt else ""))
    for n, why in undecided:
        print(f"{prop}: undecided by proof, bounded stand-in only: {n}: {why}")
    if rt is not None:
        for e in rt["errors"][:3]:
            print(f"{prop}: run-time worker: {e[:600]}")
    for l in lines:
        print(l)
    if violations:
        return 1
    if rt is not None and rt["evaluations"] == 0 and (undecided or not reports):
        print(f"{prop}: nothing could be evaluated")
        return 2
    return 0


def summarize(failed, n=8):
    out = []
    for r in failed:
        if r["error"]:
            out.append({"function": r["fn"], "where": r["lines"], "error": r["error"], "trace": r.get("trace")})
        for o in [o for o in r["obligations"] if o["status"] not in ("proved", "skipped")][:n]:
            out.append({"function": r["fn"], "where": r["lines"], **o})
    return out


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get("findings", []) if k["property"] == prop]


def evidence(prop, reports, rt, nob, ndis, undecided, violations, wall, proof_s):
    meta = {}
    try:
        with open(os.path.join(HERE, "MANIFEST.json")) as f:
            for c in json.load(f)["checks"]:
                if c["property"] == prop:
                    meta = c
    except (OSError, ValueError):
        pass
    level = meta.get("level", "proof" if nob else "exploration")
    from vc import trusted
    backends = {}
    secs = 0.0
    for r in reports:
        for o in r["obligations"]:
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        secs += r.get("solver", {}).get("z3_s", 0) + r.get("solver", {}).get("cvc5_s", 0)
    cov = {
        "obligations": nob,
        "discharged": ndis,
        "checker_cmd": f"cd /verif && VERIF_SEED={SEED} VERIF_TIER={TIER} python3-vt check.py {prop}",
        "trusted_base": trusted.base(prop),
        "functions_under_contract": [{"contract": r["name"], "function": r["fn"], "source": r["lines"], "source_sha": r.get("src_sha"), "obligations": len(r["obligations"]), "discharged": sum(o["status"] == "proved" for o in r["obligations"]), "paths": r["paths"], "secs": r["secs"], "inlined": r["inlined"], "callee_contracts": r["used"], "loops": r["loops"], "undecided": r["unsupported"] or r["error"]} for r in reports],
        "discharged_by": backends,
        "solver_seconds": round(secs, 2),
        "proof_wall_s": round(proof_s, 2),
        "undecided_by_proof": [f"{n}: {w}" for n, w in undecided],
    }
    if rt is not None:
        cov.update({"evaluations": rt["evaluations"], "distinct_nontrivial": rt["distinct"], "rule": rt["rule"], "samples": rt["samples"] or ["none"], "bounded_note": "run-time contract on the real code; bounded, not counted as proved", "worker_errors": rt["errors"][:5]})
    cov["explanation"] = meta.get("level_note", "")
    return {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": trusted.assumptions(prop), "wall_s": round(wall, 2), "violations": violations}


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    if "case" not in d:
        print("no failing input recorded; failed obligations:")
        print(json.dumps(d["failed_obligations"], indent=1)[:6000])
        return 1
    tmp = tempfile.mkdtemp(prefix="rt_")
    xp, out = os.path.join(tmp, "x.json"), os.path.join(tmp, "o.json")
    with open(xp, "w") as f:
        json.dump([d["case"]], f)
    subprocess.run([sys.executable, os.path.join(HERE, "rtworker.py"), prop, "0", "1", "0", "0", TIER, out, xp])
    with open(out) as f:
        r = json.load(f)
    os.unlink(xp), os.unlink(out), os.rmdir(tmp)
    print(r["failures"][0]["message"] if r["failures"] else "the case passes")
    return 1 if r["failures"] else 0


if __name__ == "__main__":
    sys.exit(main())
