"""JS constants: the file written for a configuration, run as JavaScript by
node, gives every constant exactly its configured value in the mode built."""
import base64
import hashlib
import json
import math
import os
import subprocess
import tempfile

RULE = "random configurations of constants (shared, dev, prod; strings, numbers, booleans, null, lists, objects, environment variables), built in either mode, with outputs there already or not; the written module is run by node; non-trivial when a mode overrides a shared constant"
CASE_LIMIT = 20
NAMES = ["A", "b", "$c", "_d", "API_URL", "e1", "longName", "Z"]
STR = ["", "a", "it's", '"', "\n", "\\", "</script>", "${x}", "`", "\u2028", "é", "\U0001f600", "\ud800", "//", "/*", "env:/x", " env://A", "\0", "\x7f", "\r\n", "'+alert(1)+'", "0"]
NUM = [0, -1, 1.5, 1e300, 2 ** 53, float("inf"), float("-inf"), float("nan"), -0.0, 1e-7, True, False, None, [], {}, [1, "x", None, [True]], {"a": 1, "b c": {"d": [None]}, "e-f": "\"'\u2029"}]
NODE = r"""
const rl = require('readline').createInterface({input: process.stdin});
const enc = v => typeof v === 'number' ? (Object.is(v, -0) ? {n: '-0'} : {n: String(v)}) : typeof v === 'string' ? {s: Array.from({length: v.length}, (_, i) => v.charCodeAt(i))} : Array.isArray(v) ? {a: v.map(enc)} : v === null || typeof v === 'boolean' ? {c: String(v)} : typeof v === 'object' ? {o: Object.fromEntries(Object.entries(v).map(([k, x]) => [k, enc(x)]))} : {u: String(v)};
(async () => { for await (const line of rl) {
  let r;
  try { const m = await import('data:text/javascript;base64,' + line); r = {v: Object.fromEntries(Object.entries(m).map(([k, x]) => [k, enc(x)]))}; }
  catch (e) { r = {e: String(e)}; }
  console.log(JSON.stringify(r));
} })();
"""
_node = None


def preload():
    global _node
    import vanillaplusjs.build.build_file
    import vanillaplusjs.build.scan_file
    _node = subprocess.Popen(["node", "-e", NODE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)


def node(src):
    _node.stdin.write(base64.b64encode(src).decode() + "\n")
    _node.stdin.flush()
    return json.loads(_node.stdout.readline())


def enc(v):
    if v is None or isinstance(v, bool):
        return {"c": {None: "null", True: "true", False: "false"}[v]}
    if isinstance(v, (int, float)):
        return ("n", float(v))
    if isinstance(v, str):
        u = v.encode("utf-16-le", "surrogatepass")
        return {"s": [u[i] | u[i + 1] << 8 for i in range(0, len(u), 2)]}
    if isinstance(v, list):
        return {"a": [enc(x) for x in v]}
    return {"o": {k: enc(x) for k, x in v.items()}}


def same(got, want):
    if isinstance(want, tuple):
        if not isinstance(got, dict) or "n" not in got:
            return False
        g = float(got["n"].replace("Infinity", "inf"))
        return math.isnan(g) and math.isnan(want[1]) or g == want[1] and math.copysign(1, g) == math.copysign(1, want[1])
    if set(got) != set(want):
        return False
    if "a" in want:
        return len(got["a"]) == len(want["a"]) and all(map(same, got["a"], want["a"]))
    if "o" in want:
        return set(got["o"]) == set(want["o"]) and all(same(got["o"][k], want["o"][k]) for k in want["o"])
    return got == want


def value(rng):
    r = rng.random()
    if r < 0.35:
        return "".join(rng.choice(STR) for _ in range(rng.randint(0, 3)))
    if r < 0.45:
        return "env://" + rng.choice(["VPJS_A", "VPJS_B"])
    return rng.choice(NUM) if r < 0.9 else rng.choice([rng.randint(-10 ** 6, 10 ** 6), rng.random()])


def fixed():
    return [{"shared": {"A": v, "b": 0}, "dev": {"b": v}, "prod": {}, "isdev": d, "have": []} for v in STR + NUM + ["env://VPJS_A", "env://VPJS_NONE"] for d in (True, False)] + [{"shared": {}, "dev": {}, "prod": {"A": 1}, "isdev": d, "have": h} for d in (True, False) for h in ([], ["file"], ["hash"], ["file", "hash"])]


def rand(rng):
    m = lambda: {k: value(rng) for k in NAMES if rng.random() < 0.4}
    return {"shared": m(), "dev": m(), "prod": m(), "isdev": rng.random() < 0.5, "have": [k for k in ("file", "hash") if rng.random() < 0.15]}


def nontrivial(case):
    return bool(set(case["shared"]) & set(case["dev" if case["isdev"] else "prod"]))


def tree(d):
    r = {}
    for base, _, names in os.walk(d):
        for n in names:
            with open(os.path.join(base, n), "rb") as f:
                r[os.path.relpath(os.path.join(base, n), d)] = f.read()
    return r


def run(case):
    from vanillaplusjs.build.build_context import BuildContext, load_js_constants
    from vanillaplusjs.build.build_file import build_file
    from vanillaplusjs.build.scan_file import scan_file
    os.environ["VPJS_A"], os.environ["VPJS_B"] = "a'b", "env://VPJS_A"
    os.environ.pop("VPJS_NONE", None)
    env = lambda v: os.environ[v[6:]] if isinstance(v, str) and v.startswith("env://") else v
    rel, t = "src/public/js/const.js", "out/www/js/const.js"
    unset = any(v == "env://VPJS_NONE" for k in ("shared", "dev", "prod") for v in case[k].values())
    with tempfile.TemporaryDirectory() as d:
        before = {rel: b"nothing\n"}
        for k, p in (("file", t), ("hash", t + ".hash")):
            if k in case["have"]:
                before[p] = b"kept"
        for p, b in before.items():
            os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
            with open(os.path.join(d, p), "wb") as f:
                f.write(b)
        try:
            jc = load_js_constants({"relpath": rel, **{k: case[k] for k in ("shared", "dev", "prod")}})
        except KeyError:
            return None if unset else f"{case}: refused"
        except Exception as e:
            return f"{case}: loading raised {type(e).__name__}: {e}"
        if unset:
            return f"{case}: an unset variable was accepted"
        ctx = BuildContext(folder=d, dev=case["isdev"], symlinks=False, js_constants=jc, delay_files=[])
        try:
            s = scan_file(ctx, rel)
            if tree(d) != before:
                return f"{case}: scanning changed the project"
            b = build_file(ctx, rel)
        except Exception as e:
            return f"{case}: {type(e).__name__}: {e}"
        got = tree(d)
        outs = [t, t + ".hash"]
        if set(got) != {rel, *outs}:
            return f"{case}: the project holds {sorted(got)}"
        for p in before:
            if got[p] != before[p]:
                return f"{case}: {p} was changed"
        new, old = sorted(set(got) - set(before)), sorted(set(before) - {rel})
        is_ = (list(s.dependencies), sorted(s.produces), list(b.children), sorted(b.produced), sorted(b.reused))
        if is_ != ([], outs, [], new, old):
            return f"{case}: reported {is_}"
        if t + ".hash" in new and got[t + ".hash"] != base64.urlsafe_b64encode(hashlib.sha256(got[t]).digest()):
            return f"{case}: wrong hash"
        if t in new:
            want = {k: enc(env(v)) for k, v in {**case["shared"], **case["dev" if case["isdev"] else "prod"]}.items()}
            r = node(got[t])
            if "e" in r:
                return f"{case}: node refuses {got[t]!r}: {r['e']}"
            if set(r["v"]) != set(want) or not all(same(r["v"][k], want[k]) for k in want):
                return f"{case}: {got[t]!r} gives {r['v']}"
    return None
