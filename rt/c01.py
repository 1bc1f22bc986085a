"""Graph operations against a mathematical model (dict of edges)."""
import random

RULE = "random sequences of add/remove/set_children/queries over a small name pool, replayed on the graph and on a plain edge-list model; non-trivial when at least one edge was created"
NAMES = ["a", "b", "c", "d", "e", "f"]


class Model:
    def __init__(self):
        self.meta, self.ch = {}, {}

    def parents(self, n):
        out = []
        for p, cs in self.ch.items():
            out += [p] * cs.count(n)
        return sorted(out)


def fixed():
    return [
        {"ops": [["add", "a", 1, 1.5, 3, None], ["add", "b", 1, 2.5, 4, ["a", "a"]], ["set", "b", ["a"], True], ["rm", "a", True, False]]},
        {"ops": [["add", "a", 1, 1.5, 3, []], ["set", "a", ["a"], False], ["set", "a", ["a", "a"], False], ["set", "a", [], True], ["rm", "a", False, False]]},
        {"ops": [["add", "a", 1, 1.5, 3, []], ["set", "a", ["a"], False], ["rm", "a", True, True], ["add", "a", 2, 1, 1, ["b"]]]},
        {"ops": [["add", "a", 1, 1.5, 3, []], ["add", "b", 1, 1.5, 3, ["a"]], ["set", "a", ["b"], False], ["rm", "b", True, True]]},
        {"ops": [["add", "a", 1, 1.5, 3, []], ["add", "b", 1, 1.5, 3, ["a"]], ["add", "a", 1, 1, 1, []], ["set", "q", [], True], ["rm", "b", True, False], ["rm", "a", False, True]]},
        {"ops": [["add", "a", 0, 0, 0, []], ["add", "b", 0, 0, 0, ["a"]], ["add", "c", 0, 0, 0, ["b", "a", "b"]], ["rm", "b", True, True], ["set", "c", ["a", "a", "z"], True], ["add", "z", 1, 1, 1, ["c"]]]},
    ]


def rand(rng):
    ops = []
    for _ in range(rng.randint(1, 25)):
        k = rng.random()
        n = rng.choice(NAMES)
        kids = [rng.choice(NAMES) for _ in range(rng.randint(0, 4))]
        if k < 0.4:
            ops.append(["add", n, rng.randint(0, 3), rng.choice([0, 1.5, 2]), rng.randint(0, 3), rng.choice([None, kids])])
        elif k < 0.75:
            ops.append(["set", n, kids, rng.random() < 0.6])
        else:
            ops.append(["rm", n, rng.random() < 0.7, rng.random() < 0.7])
    return {"ops": ops}


def nontrivial(case):
    return any(o[0] in ("add", "set") and o[-1 if o[0] == "add" else 2] for o in case["ops"])


def reach(m, a):
    seen, todo = set(), list(m.ch.get(a, []))
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += m.ch[x]
    return seen


def run(case):
    from vanillaplusjs.build.graph import FileDependencyGraph
    g, m = FileDependencyGraph(), Model()
    for op in case["ops"]:
        exc = None
        try:
            if op[0] == "add":
                _, n, fs, mt, ino, kids = op
                bad = n in m.meta or any(k not in m.meta for k in (kids or []))
                g.add_file(n, fs, mt, ino, kids)
            elif op[0] == "set":
                _, n, kids, prev = op
                bad = n not in m.meta or any(k not in m.meta for k in kids)
                if not bad and prev:
                    bad = any(k == n or n in reach(m, k) for k in kids)
                g.set_children(n, kids, prevent_cycles=prev)
            else:
                _, n, cp, cc = op
                bad = n not in m.meta or (m.parents(n) and not cp) or (m.ch[n] and not cc)
                g.remove_file(n, clear_parents=cp, clear_children=cc)
        except ValueError as e:
            exc = e
        except Exception as e:
            return f"{op}: unexpected {type(e).__name__}: {e}"
        if bool(bad) != (exc is not None):
            return f"{op}: {'accepted' if exc is None else 'rejected'} but {'invalid' if bad else 'valid'}; graph {m.ch}"
        if exc is None:
            if op[0] == "add":
                m.meta[n] = (fs, mt, ino)
                m.ch[n] = list(kids or [])
            elif op[0] == "set":
                m.ch[n] = list(kids)
            else:
                del m.meta[n], m.ch[n]
                for k in m.ch:
                    m.ch[k] = [x for x in m.ch[k] if x != n]
        msg = compare(g, m)
        if msg:
            return f"after {op} of {case['ops']}: {msg}"
    return None


def compare(g, m):
    for n in NAMES + ["z", "q"]:
        if (n in g) != (n in m.meta):
            return f"membership of {n}"
        if n not in m.meta:
            for f in (g.get_children, g.get_parents):
                try:
                    f(n)
                    return f"{f.__name__}({n}) on an unknown file"
                except ValueError:
                    pass
            continue
        if list(g.get_children(n)) != m.ch[n]:
            return f"children of {n}: {g.get_children(n)} instead of {m.ch[n]}"
        if sorted(g.get_parents(n)) != m.parents(n):
            return f"parents of {n}: {g.get_parents(n)} instead of {m.parents(n)}"
        fs, mt, ino = m.meta[n]
        if not g.check_file(n, fs, mt, ino) or g.check_file(n, fs + 1, mt, ino) or g.check_file(n, fs, mt + 1, ino) or g.check_file(n, fs, mt, ino + 1):
            return f"metadata of {n}"
        for o in m.meta:
            if o == n:
                continue
            up, down = n in m.ch[o], o in m.ch[n]
            want = "cyclic" if up and down else "child" if up else "parent" if down else "unrelated"
            if g.check_direct_relationship(n, o) != want:
                return f"direct relationship {n},{o}: {g.check_direct_relationship(n, o)} instead of {want}"
    return None
