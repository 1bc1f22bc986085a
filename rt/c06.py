"""The token pipeline against an independent interpretation of the documented
manipulator protocol."""
import itertools
import os

RULE = "random scripted manipulators (with shared state) over random token streams and consume points, random generator-style manipulators, and whole files through manipulate_and_serialize; non-trivial when some manipulator marks"


class Man:
    """A scripted manipulator: marks tokens t with t % m == r, answers after n
    continue_mark calls with a list derived from what it saw; every answer is
    smaller than what it replaces so that the stream ends."""

    def __init__(self, spec, world):
        self.m, self.r, self.n, self.kind, self.every = spec
        self.world = world
        self.seen = []
        self.k = 0

    def start_mark(self, t):
        self.world.append(("s", id_of(self), t))
        self.k += 1
        return t > 0 and t % self.m == self.r and self.k % self.every == 0

    def continue_mark(self, t):
        self.world.append(("c", id_of(self), t))
        self.seen.append(t)
        if len(self.seen) < self.n:
            return None
        s, self.seen = self.seen, []
        if self.kind == 0:
            return []
        if self.kind == 1:
            return [x // 2 for x in s]
        if self.kind == 2:
            return [s[-1] // 2, s[0] // 3]
        return [x // 3 for x in s for _ in (0, 1)]


def id_of(m):
    return (m.m, m.r, m.n, m.kind, m.every)


def spec(tokens, mans, consume_at):
    """What the documentation says, written as a work list."""
    out, chunks, mark = [], [], None
    for i, t in enumerate(tokens):
        todo = [t]
        while todo:
            x = todo[0]
            if mark is None:
                mark = next((m for m in mans if m.start_mark(x)), None)
            if mark is None:
                out.append(x)
                todo = todo[1:]
            else:
                ans = mark.continue_mark(x)
                todo = todo[1:]
                if ans is not None:
                    mark = None
                    todo = list(ans) + todo
        if i in consume_at:
            chunks.append(out)
            out = []
    chunks.append(out)
    return chunks


def fixed():
    out = []
    for a, b in itertools.product(range(5), range(4)):
        out.append({"mod": ["html", "css", "js"][(a + b) % 3], "mans": [[2, 0, 1 + a, b, 1], [3, 0, 2, 2, 1]], "tokens": [2, 4, 6, 5, 9, 12, 7, 8, 30, 44, 16], "consume": [2, 5]})
        out.append({"yield": [[2, 0, a, b % 3]], "tokens": [2, 4, 1, 6, 5, 9, 12, 7, 8, 30, 44, 16, 3, 3, 3, 3]})
    out.append({"file": "js", "text": "import a from './b.js';\n/* c */ x = 'y' // z\n", "mans": [[3, 0, 2, 1, 1]]})
    out.append({"file": "css", "text": "a { b: c; }\n@import url(x);\n/* c */\n", "mans": [[3, 0, 2, 1, 1]]})
    out.append({"file": "html", "text": "<!DOCTYPE html><html><head><title>a</title></head><body><p>b<!-- c --></p></body></html>", "mans": []})
    return out


def rand(rng):
    k = rng.random()
    toks = [rng.randint(0, 60) for _ in range(rng.randint(0, 14))]
    if k < 0.6:
        return {"mod": rng.choice(["html", "css", "js"]), "mans": [[rng.randint(1, 4), rng.randint(0, 2), rng.randint(1, 4), rng.randint(0, 3), rng.choice([1, 1, 2, 3])] for _ in range(rng.randint(0, 4))], "tokens": toks, "consume": sorted({rng.randint(0, 14) for _ in range(rng.randint(0, 4))})}
    if k < 0.9:
        return {"yield": [[rng.randint(1, 3), rng.randint(0, 1), rng.randint(0, 4), rng.randint(0, 3)] for _ in range(rng.randint(1, 3))], "tokens": toks + [rng.randint(0, 9) for _ in range(6)]}
    f = rng.choice(["js", "css"])
    frag = {"js": ["import ", "'x'", " from ", "/* c */", "{", "}", "\n", " a ", "*", ";", "//d\n", "as ", "\"q\"", "/re/g", ","], "css": ["a ", "{", "}", ":", ";", "\n", "/* c */", "url(x)", "'s'", "12px", "#id", "@m ", "(", ")", "50%"]}[f]
    return {"file": f, "text": "".join(rng.choice(frag) for _ in range(rng.randint(0, 25))), "mans": [[rng.randint(1, 4), rng.randint(0, 2), rng.randint(1, 4), rng.randint(0, 3), rng.choice([1, 2])] for _ in range(rng.randint(0, 3))]}


def nontrivial(case):
    return bool(case.get("mans") or case.get("yield"))


def run(case):
    if "yield" in case:
        return run_yield(case)
    if "file" in case:
        return run_file(case)
    m = __import__(f"vanillaplusjs.build.{case['mod']}.builder", fromlist=["x"])
    B = getattr(m, case["mod"].upper() + "Builder")
    w1, w2 = [], []
    want = spec(case["tokens"], [Man(s, w1) for s in case["mans"]], set(case["consume"]))
    ml = [Man(s, w2) for s in case["mans"]]
    b = B(ml)
    got = []
    for i, t in enumerate(case["tokens"]):
        b.handle_token(t)
        if i in case["consume"]:
            got.append(b.consume_tokens())
    got.append(b.consume_tokens())
    if b.consume_tokens():
        return "consume_tokens delivered tokens twice"
    if got != want:
        return f"{case['mod']} builder output {got}, expected {want} for {case}"
    if w1 != w2:
        k = next(i for i, (x, y) in enumerate(itertools.zip_longest(w1, w2)) if x != y)
        return f"{case['mod']} builder: manipulator call {k} is {w2[k:k+1]}, expected {w1[k:k+1]} for {case}"
    return None


def program(spec, state):
    """A generator-style manipulator; declines the tokens it has just handed
    back so that the stream ends."""
    m, r, n, kind = spec

    def handle(self, node):
        v = node["value"]
        if v is None or v <= 0 or v % m != r or state.get(id(spec), 0):
            state[id(spec)] = max(0, state.get(id(spec), 0) - 1)
            return False
        seen = [node]
        for _ in range(n):
            node = yield
            seen.append(node)
            if self is not None and self.stack != seen:
                raise AssertionError(f"self.stack is {self.stack}, marked tokens are {seen}")
            if node["type"] == "EOF" or node["value"] % 5 == 4:
                break
        if kind == 0:
            state[id(spec)] = len(seen)
            return False
        if kind == 1:
            return [dict(type="Identifier", value=x["value"] // 2) if x["type"] != "EOF" else x for x in seen]
        if kind == 2:
            return seen[:0] + ([seen[-1]] if seen[-1]["type"] == "EOF" else [])
        state[id(spec)] = len(seen)
        return self.stack if self is not None and n and len(seen) > 1 else list(seen)
    return handle


def run_yield(case):
    from vanillaplusjs.build.js.yield_manipulator import JSYieldManipulator
    from vanillaplusjs.build.js.builder import JSBuilder
    from vanillaplusjs.build.js.token import JSTokenType
    toks = [{"type": "Identifier", "value": t} for t in case["tokens"]] + [{"type": JSTokenType.eof, "value": None}]
    # reference
    st1, st2 = {}, {}
    progs = [program(s, st1) for s in case["yield"]]
    todo, want = list(toks), []
    steps = 0
    while todo:
        steps += 1
        if steps > 300:
            return None
        ans = None
        for p in progs:
            g, used, fin = p(None, todo[0]), 0, False
            try:
                next(g)
                while used + 1 < len(todo):
                    used += 1
                    g.send(todo[used])
            except StopIteration as e:
                fin, ans = True, e.value
            if fin and used == 0 and ans is False:
                continue
            break
        else:
            want.append(todo.pop(0))
            continue
        if not fin:
            break  # the mark is still open: nothing comes out
        rest = todo[used + 1 :]
        todo = (todo[: used + 1] if ans is False else list(ans)) + rest

    class Y(JSYieldManipulator):
        def __init__(self, s):
            super().__init__()
            self.p = program(s, st2)

        def handle(self, node):
            return (yield from self.p(self, node))

    b = JSBuilder([Y(s) for s in case["yield"]])
    got = []
    try:
        for t in toks:
            b.handle_token(t)
            got += b.consume_tokens()
    except Exception as e:
        return f"generator manipulator raised {type(e).__name__}: {e} for {case}"
    if got != want:
        return f"generator manipulator gave {[t['value'] for t in got]}, expected {[t['value'] for t in want]} for {case}"
    return None


def run_file(case):
    f = case["file"]
    base = f"vanillaplusjs.build.{f}"
    ms = __import__(base + ".manipulate_and_serialize", fromlist=["x"]).manipulate_and_serialize
    tk = __import__(base + ".tokenizer", fromlist=["x"]).tokenize
    with open("in.txt", "w") as fp:
        fp.write(case["text"])
    if f == "html":
        return html_file(ms, tk)
    ser = __import__(base + ".serializer", fromlist=["x"]).serialize
    try:
        with open("in.txt") as fp:
            toks = list(tk(fp))
        [ser(t) for t in toks]
    except Exception:
        return None  # not a question of the pipeline

    class TM(Man):
        def start_mark(self, t):
            self.world.append(("s", id_of(self), str(t)))
            self.k += 1
            return self.k % (self.m + 1) == self.r and self.k < 40

        def continue_mark(self, t):
            self.world.append(("c", id_of(self), str(t)))
            self.seen.append(t)
            if len(self.seen) < self.n:
                return None
            s, self.seen = self.seen, []
            return [s[:0], s, [s[-1], s[0]], s + s][self.kind]

    res = []
    for mode in ("spec", "file", "scan"):
        w = []
        mans = [TM(s, w) for s in case["mans"]]
        if mode == "spec":
            text = "".join(ser(t) for c in spec(toks, mans, set()) for t in c)
        elif mode == "file":
            ms("in.txt", "d1/d2/out.txt", mans)
            with open("d1/d2/out.txt", newline="") as fp:
                text = fp.read()
            os.remove("d1/d2/out.txt")
        else:
            before = os.listdir(".")
            ms("in.txt", None, mans)
            if sorted(os.listdir(".")) != sorted(before):
                return f"scanning wrote a file for {case}"
            text = res[0][0]
        res.append((text, w))
    for mode, (t, w) in zip(("file", "scan"), res[1:]):
        if t != res[0][0]:
            return f"{f} file output {t!r}, expected {res[0][0]!r} for {case}"
        if w != res[0][1]:
            return f"{f} {mode}: the manipulators saw other tokens than in the stream for {case}"
    return None


def html_file(ms, tk):
    class Rec:
        def __init__(self):
            self.t = []

        def start_mark(self, t):
            self.t.append(str(t))
            return False

        def continue_mark(self, t):
            return [t]
    a, b = Rec(), Rec()
    ms("in.txt", None, [a])
    ms("in.txt", "h/out.html", [b])
    with open("in.txt") as fp:
        c = [str(t) for t in tk(fp)]
    if not (a.t == b.t == c):
        return "the html manipulators saw other tokens than the tokenizer produced"
    with open("h/out.html") as fp:
        t = fp.read()
    if t.count("<p>b<!-- c --></p>") != 1 or t.count("<title>a</title>") != 1 or t.count("<head>") != 1:
        return f"html changed without any manipulator: {t!r}"
    return None
