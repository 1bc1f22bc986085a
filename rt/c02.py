"""Nested relationships against plain reachability."""
RULE = "random directed graphs (cycles, self-loops, duplicate edges) on up to 7 files; every pair compared with transitive closure; then guarded edge changes; non-trivial when the graph has at least two edges"


def fixed():
    return [
        {"n": 3, "edges": [[0, 1], [1, 2]], "sets": [[2, [0]], [0, [2]], [1, [1]]]},
        {"n": 4, "edges": [[0, 1], [1, 0], [1, 2], [2, 3]], "sets": [[3, [0, 1]], [3, []]]},
        {"n": 5, "edges": [[0, 1], [0, 2], [1, 3], [2, 3], [3, 4]], "sets": [[4, [0]], [4, [1, 2]], [3, [0]]]},
        {"n": 6, "edges": [[0, 1], [1, 2], [2, 3], [3, 4], [4, 5], [5, 3], [2, 2]], "sets": [[5, [0]], [1, [3]]]},
    ]


def rand(rng):
    n = rng.randint(2, 7)
    edges = [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.randint(0, 2 * n))]
    return {"n": n, "edges": edges, "sets": [[rng.randrange(n), [rng.randrange(n) for _ in range(rng.randint(0, 3))]] for _ in range(3)]}


def nontrivial(c):
    return len(c["edges"]) >= 2


def reach(ch, a):
    seen, todo = set(), list(ch[a])
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += ch[x]
    return seen


def run(case):
    from vanillaplusjs.build.graph import FileDependencyGraph
    g = FileDependencyGraph()
    n = case["n"]
    ch = {i: [] for i in range(n)}
    for a, b in case["edges"]:
        ch[a].append(b)
    for i in range(n):
        g.add_file(f"f{i}", 1, 1, 1)
    for i in range(n):
        g.set_children(f"f{i}", [f"f{j}" for j in ch[i]], prevent_cycles=False)
    m = check(g, ch, n)
    if m:
        return f"{case}: {m}"
    for a, kids in case["sets"]:
        bad = any(k == a or a in reach(ch, k) for k in kids)
        try:
            g.set_children(f"f{a}", [f"f{k}" for k in kids])
            ok = True
        except ValueError:
            ok = False
        if ok == bad:
            return f"{case}: set_children(f{a}, {kids}) {'accepted a cycle' if ok else 'rejected without a cycle'}"
        if ok:
            ch[a] = list(kids)
        m = check(g, ch, n)
        if m:
            return f"{case}: after set {a}->{kids}: {m}"
    return None


def check(g, ch, n):
    r = {i: reach(ch, i) for i in range(n)}
    for a in range(n):
        if [f"f{j}" for j in ch[a]] != list(g.get_children(f"f{a}")):
            return f"children of f{a}: {g.get_children(f'f{a}')}"
        for b in range(n):
            if a == b:
                continue
            up, down = a in r[b], b in r[a]
            want = "cyclic" if up and down else "child" if up else "parent" if down else "unrelated"
            got = g.check_nested_relationship(f"f{a}", f"f{b}")
            if got != want:
                return f"f{a},f{b}: {got} instead of {want}"
            up, down = a in ch[b], b in ch[a]
            want = "cyclic" if up and down else "child" if up else "parent" if down else "unrelated"
            got = g.check_direct_relationship(f"f{a}", f"f{b}")
            if got != want:
                return f"direct f{a},f{b}: {got} instead of {want}"
    for a, b in (("zz", "f0"), ("f0", "zz"), ("f0", "f0")):
        for f in (g.check_nested_relationship, g.check_direct_relationship):
            try:
                f(a, b)
                return f"{f.__name__}({a},{b}) accepted"
            except ValueError:
                pass
    return None
