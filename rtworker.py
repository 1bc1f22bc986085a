"""Evaluates a property's run-time contract on generated cases, contained:
file effects outside the scratch directory raise, and the process gives up
its privileges when it can.

usage: rtworker.py PROP worker nworkers seed budget tier out extra.json"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [REPO, HERE]
sys.path.append("/opt/venv/lib/python3.12/site-packages")

import hashlib
import importlib
import json
import random
import shutil
import signal
import tempfile
import time
import traceback


class CaseTimeout(BaseException):
    pass


class Escape(BaseException):
    """The code under test tried to change something outside the scratch."""


WRITE_EVENTS = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime", "shutil.rmtree", "shutil.move"}
KILL_EVENTS = {"os.kill", "os.killpg", "os.system", "os.exec", "os.posix_spawn", "os.fork", "subprocess.Popen", "pty.spawn", "socket.connect"}


def contain(scratch, allow_events=()):
    scratch = os.path.realpath(scratch)
    state = {"on": True}

    def inside(p):
        if isinstance(p, int):
            return True
        try:
            p = os.fsdecode(p)
        except TypeError:
            return True
        q = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
        return q == scratch or q.startswith(scratch + "/") or q in ("/dev/null", "/dev/tty")

    def hook(ev, args):
        if not state["on"]:
            return
        if ev == "open":
            path, mode, flags = args
            if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) and not inside(path):
                raise Escape(f"open for writing: {path}")
        elif ev in WRITE_EVENTS:
            for p in args[:2]:
                if isinstance(p, (str, bytes, os.PathLike)) and not inside(p):
                    raise Escape(f"{ev}: {p}")
        elif ev in KILL_EVENTS and ev not in allow_events:
            raise Escape(f"{ev} {args!r}")

    sys.addaudithook(hook)
    return state


def main():
    prop, w, nw, seed, budget, tier, out, extra = sys.argv[1:9]
    w, nw, seed, budget = int(w), int(nw), int(seed), float(budget)
    mod = importlib.import_module("rt." + prop.lower())
    try:
        from loguru import logger
        logger.remove()
    except Exception:
        pass
    with open(extra) as f:
        extra_cases = json.load(f)
    res = {"evaluations": 0, "nontrivial": 0, "failures": [], "errors": [], "samples": [], "hashes": [], "rule": getattr(mod, "RULE", ""), "known": {}}
    outf = open(out, "w")
    try:
        scratch = tempfile.mkdtemp(prefix="scratch_", dir="/dev/shm")
    except OSError:
        scratch = tempfile.mkdtemp(prefix="scratch_")
    known = []
    kp = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kp):
        with open(kp) as f:
            known = [k["match"] for k in json.load(f).get("findings", []) if k["property"] == prop]
    importlib.import_module("vanillaplusjs.main")
    if getattr(mod, "preload", None):
        mod.preload()
    os.chmod(scratch, 0o777)
    if os.getuid() == 0:
        os.chown(scratch, 65534, 65534)
    os.chdir(scratch)
    os.environ["HOME"] = scratch
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            pass
    cst = contain(scratch, getattr(mod, "ALLOW", ()))
    start = time.time()
    limit = getattr(mod, "CASE_LIMIT", 20)

    def onalarm(sig, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, onalarm)
    hashes = set()

    def one(case):
        js = json.dumps(case, sort_keys=True)
        h = hashlib.sha1(js.encode("utf-8", "surrogatepass")).hexdigest()[:12]
        case = json.loads(js)
        signal.setitimer(signal.ITIMER_REAL, limit)
        msg = None
        try:
            msg = mod.run(case)
        except CaseTimeout:
            msg = f"no answer within {limit}s"
        except Escape as e:
            msg = f"changed something outside the project: {e}"
        except RecursionError:
            msg = "recursion limit exceeded"
        except Exception:
            res["errors"].append(f"oracle error on {js[:300]}: {traceback.format_exc()[-800:]}")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        res["evaluations"] += 1
        if h not in hashes:
            hashes.add(h)
            if getattr(mod, "nontrivial", lambda c: True)(case):
                res["nontrivial"] += 1
                res["hashes"].append(h)
                if len(res["samples"]) < 2:
                    res["samples"].append(js[:600])
        if msg:
            for k in known:
                if k in msg:
                    res["known"][k] = js[:300]
                    return False
            res["failures"].append({"case": case, "message": f"{msg}"})
            return True
        return False

    fixed = list(extra_cases) + (list(mod.fixed()) if budget > 0 else [])
    fails = 0
    for i, c in enumerate(fixed):
        if i % nw == w:
            fails += one(c)
            if fails >= 5:
                break
    rng = random.Random(seed * 1000 + w)
    while time.time() - start < budget and fails < 5 and hasattr(mod, "rand") and len(res["errors"]) < 20:
        fails += one(mod.rand(rng))
    res["hashes"] = res["hashes"][:200000]
    json.dump(res, outf)
    outf.close()
    cst["on"] = False
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)


main()
