"""The dev watcher's bookkeeping: random histories of file changes, rebuilds
that succeed, fail, or have changes arrive while they run, against a model of
what exists and what was touched."""
import os
import shutil

RULE = "random histories of create/modify/delete/move (including replacing an existing file) over a few paths with rebuild polls at random times, builds that succeed, fail, or see changes while running; non-trivial when a rebuild was due"
CASE_LIMIT = 30
NAMES = ["a.js", "b.css", "c.html", "d/e.js"]


def preload():
    import vanillaplusjs.runners.dev
    import vanillaplusjs.runners.init


def _op(rng):
    k = rng.choice("cmdrrpppct")
    if k == "p":
        return ["p", rng.choice([0, 0, 0, 50, 128, 200]), rng.choice(["ok", "ok", "fail", "fail", "gone"]), [_op(rng) for _ in range(rng.choice([0, 0, 0, 1, 2, 3]))]]
    if k == "t":
        return ["t", rng.choice([0, 1, 127, 128, 129, 500])]
    if k == "r":
        return ["r", rng.randrange(4), rng.randrange(4)]
    return [k, rng.randrange(4)]


def fixed():
    out = []
    P = lambda w="ok", ev=(): ["p", 200, w, list(ev)]
    for init in ([], [0], [0, 1], [0, 1, 2, 3]):
        for a in (["c", 0], ["m", 0], ["d", 0], ["r", 0, 1], ["r", 1, 0]):
            for b in (["c", 0], ["m", 0], ["d", 0], ["r", 1, 0], ["d", 1], ["c", 1]):
                for res in ("ok", "fail"):
                    out.append({"init": init, "ops": [a, b, P(res), P()]})
                    out.append({"init": init, "ops": [a, P(res, [b]), P(), P()]})
                    out.append({"init": init, "ops": [a, P(res, [b, a]), P("fail"), b, P()]})
        out.append({"init": init, "ops": [["c", 0], ["t", 127], ["p", 0, "ok", []], ["t", 1], ["p", 0, "ok", []]]})
        out.append({"init": init, "ops": [["m", 0], ["p", 0, "ok", []], P("gone"), ["m", 1], P(), P()]})
        out.append({"init": init, "ops": [["dir"], P(), ["c", 2], ["dir"], P(), P()]})
    return out


def rand(rng):
    return {"init": [i for i in range(4) if rng.random() < 0.5], "ops": [_op(rng) for _ in range(rng.randint(2, 10))] + [["p", 200, "ok", []], ["p", 200, "ok", []]]}


def nontrivial(case):
    return any(o[0] == "p" for o in case["ops"]) and any(o[0] in "cmdr" for o in case["ops"])


class Clock:
    def __init__(self):
        self.t = 1000.0

    def time(self):
        return self.t


def run(case):
    from watchdog.events import FileCreatedEvent, FileDeletedEvent, FileModifiedEvent, FileMovedEvent, DirModifiedEvent, DirCreatedEvent, DirDeletedEvent, DirMovedEvent
    from vanillaplusjs.runners import dev, init
    folder = os.path.abspath("proj")
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(os.path.join(folder, "src", "d"))
    _init(folder)
    clock = Clock()
    real_time, real_hot = dev.time, dev.hot_incremental_rebuild
    real_sig = dev.get_file_signature
    state = {}

    class T:
        def __getattr__(self, n):
            return getattr(real_time, n)
    tm = T()
    tm.time = clock.time
    calls = []
    path = lambda i: os.path.join(folder, "src", NAMES[i])
    exists, touched = set(), set()
    for i in case["init"]:
        open(path(i), "w").write("x")
        exists.add(i)
    try:
        dev.time = tm
        h = dev.DevEventHandler(folder, 0.125, False)
        last = [clock.t]
        unb = [False]

        def event(op):
            """Perform the change on disk and deliver what watchdog would."""
            k = op[0]
            if k == "dir":
                d = os.path.join(folder, "src", "d")
                for e in (DirModifiedEvent(d), DirCreatedEvent(d), DirDeletedEvent(d), DirMovedEvent(d, d + "2")):
                    h.dispatch(e)
                return
            i = op[1]
            if k == "c" and i not in exists:
                open(path(i), "w").write("y")
                exists.add(i)
                touched.add(i)
                h.dispatch(FileCreatedEvent(path(i)))
            elif k in ("m", "c") and i in exists:
                open(path(i), "a").write("z")
                touched.add(i)
                h.dispatch(FileModifiedEvent(path(i)))
            elif k == "d" and i in exists:
                os.unlink(path(i))
                exists.discard(i)
                touched.add(i)
                h.dispatch(FileDeletedEvent(path(i)))
            elif k == "r" and i in exists and op[2] != i:
                os.replace(path(i), path(op[2]))
                exists.discard(i)
                exists.add(op[2])
                touched.update((i, op[2]))
                h.dispatch(FileMovedEvent(path(i), path(op[2])))
            else:
                return
            last[0] = clock.t
            unb[0] = False

        def sets():
            return set(h.deleted_files), set(h.changed_files), set(h.created_files)

        def check(when):
            d, ch, cr = sets()
            wd = {path(i) for i in touched if i not in exists}
            we = {path(i) for i in touched if i in exists}
            rel = lambda s: sorted(os.path.relpath(x, folder) for x in s)
            if d != wd:
                return f"{when}: files gone since the last build are {rel(wd)}, recorded as deleted are {rel(d)}"
            if ch | cr != we:
                return f"{when}: files written since the last build are {rel(we)}, recorded as changed or created are {rel(ch | cr)}"
            if ch & cr:
                return f"{when}: {rel(ch & cr)} recorded both as changed and as created"
            return None

        async def hot(context, dg, og, pg, changed, added, deleted):
            calls.append((dict(changed), dict(added), list(deleted), context))
            state["touched"] = set(touched)
            touched.clear()
            for op in state["during"]:
                if op[0] in ("c", "m", "d", "r", "dir"):
                    event(op)
            if state["how"] != "ok":
                raise ValueError("the build fails")
        dev.hot_incremental_rebuild = hot

        def sig(p):
            if state.get("how") == "gone":
                raise FileNotFoundError(p)
            return real_sig(p)
        dev.get_file_signature = sig
        for n, op in enumerate(case["ops"]):
            if op[0] == "t":
                clock.t += op[1] / 1024.0
                continue
            if op[0] != "p":
                event(op)
                m = check(f"after step {n} {op}")
                if m:
                    return m
                continue
            clock.t += op[1] / 1024.0
            due = bool(touched) and not unb[0] and clock.t - last[0] >= 0.125
            before = set(touched)
            ex0 = set(exists)
            state.update(during=op[3], how=op[2], touched=None)
            gone = op[2] == "gone" and any(i in exists for i in touched)
            if op[2] == "gone" and not gone:
                state["how"] = "fail"
            n0 = len(calls)
            t0, s0 = (set(h.deleted_files), set(h.changed_files), set(h.created_files)), h.project_is_unbuildable
            try:
                h.rebuild_if_appropriate()
            except Exception as e:
                return f"step {n} {op}: the watcher stopped with {type(e).__name__}: {e}"
            if not due:
                if len(calls) != n0:
                    return f"step {n} {op}: rebuilt although nothing was due (pending {sorted(before)}, {clock.t - last[0]:.3f}s since the last change, failed before: {unb[0]})"
                m = check(f"step {n} {op} (not due)")
                if m:
                    return m
                continue
            if gone:
                unb[0] = True
                m = check(f"step {n}: a changed file could not be read")
                if m:
                    return m
                continue
            if len(calls) != n0 + 1:
                return f"step {n} {op}: {len(calls) - n0} rebuilds although one was due (pending {sorted(before)})"
            ch, ad, de, ctx = calls[-1]
            rl = lambda ix: sorted(os.path.join("src", *NAMES[i].split("/")) for i in ix)
            if sorted(de) != rl(i for i in before if i not in ex0):
                return f"step {n} {op}: deleted files handed to the rebuild: {sorted(de)}, should be {rl(i for i in before if i not in ex0)}"
            if sorted(list(ch) + list(ad)) != rl(i for i in before if i in ex0):
                return f"step {n} {op}: changed and added files handed to the rebuild: {sorted(ch)}, {sorted(ad)}, should be {rl(i for i in before if i in ex0)}"
            if ctx.folder != folder or not ctx.dev:
                return f"step {n}: rebuilt with folder {ctx.folder}, dev {ctx.dev}"
            if state["how"] != "ok":
                ev = set(touched)
                touched.update(state["touched"])
                unb[0] = not ev
            else:
                unb[0] = False
            m = check(f"step {n} {op} (build {state['how']})")
            if m:
                return m
    finally:
        dev.time, dev.hot_incremental_rebuild, dev.get_file_signature = real_time, real_hot, real_sig
        shutil.rmtree(folder, ignore_errors=True)
    return None


def _init(folder):
    import json
    os.makedirs(os.path.join(folder, "src", "public"), exist_ok=True)
    if not _cfg:
        import tempfile
        from vanillaplusjs.runners import init
        d = tempfile.mkdtemp(dir=os.getcwd())
        init.main(["--folder", d])
        with open(os.path.join(d, "vanillaplusjs.json")) as f:
            _cfg.append(f.read())
        shutil.rmtree(d)
    with open(os.path.join(folder, "vanillaplusjs.json"), "w") as f:
        f.write(_cfg[0])


_cfg = []
