"""Readers against an independent preprocessing of the whole text."""
import io
import itertools

RULE = "random texts over letters, CR, LF, FF, CRLF pairs and lone surrogates, read through random interleavings of read/peek with lengths 1..9 and -1; non-trivial when the text needs a substitution"
AL = ["a", "b", "\r", "\n", "\f", "\r\n", "\ud800", "\udfff", "\ue000", "x", "\n\r", "\u2028"]


def expected(x):
    out, i = [], 0
    while i < len(x):
        c = x[i]
        if c == "\r":
            if x[i + 1 : i + 2] == "\n":
                i += 1
            out.append("\n")
        elif c == "\f":
            out.append("\n")
        elif 0xD800 <= ord(c) <= 0xDFFF:
            out.append("\ufffd")
        else:
            out.append(c)
        i += 1
    return "".join(out)


def fixed():
    out = [{"text": "", "ops": [["peek", 1], ["read", 1], ["read", -1], ["peek", -1]]}]
    for t in itertools.product(["a", "\r", "\n", "\f"], repeat=4):
        t = "".join(t)
        out.append({"text": t, "ops": [["peek", 1], ["peek", 2], ["read", 1]] * 5})
        out.append({"text": t, "ops": [["peek", 3], ["read", 2]] * 4})
        out.append({"text": t, "ops": [["peek", -1], ["read", 1], ["peek", -1], ["read", -1], ["read", -1], ["peek", 1]]})
    out += [{"lemma": n} for n in range(4)]
    return out


def rand(rng):
    t = "".join(rng.choice(AL) for _ in range(rng.randint(0, 40)))
    return {"text": t, "ops": [[rng.choice(["read", "peek"]), rng.choice([-1, 1, 1, 1, 2, 2, 3, 4, 5, 9]) if rng.random() < 0.9 else rng.randint(1, 60)] for _ in range(rng.randint(1, 60))], "plain": rng.random() < 0.3}


def nontrivial(case):
    return "lemma" in case or any(c in case["text"] for c in "\r\f\ud800\udfff")


def run(case):
    from vanillaplusjs.build import ioutil
    if "lemma" in case:
        return lemmas(case["lemma"], ioutil)
    for plain in (False, True):
        if case.get("plain") and not plain:
            continue
        want = case["text"] if plain else expected(case["text"])
        r = ioutil.PeekableTextIO(io.StringIO(case["text"], newline=""))
        if not plain:
            r = ioutil.PreprocessedTextIO(r)
        pos = 0
        for i, (op, n) in enumerate(case["ops"]):
            exp = want[pos:] if n == -1 else want[pos : pos + n]
            try:
                got = getattr(r, op)(n)
            except Exception as e:
                return f"{'plain' if plain else 'preprocessed'} {case['text']!r} step {i} {op}({n}) raised {type(e).__name__}: {e}"
            if (got or "") != exp or (exp == "" and got is not None):
                return f"{'plain' if plain else 'preprocessed'} {case['text']!r} step {i} {op}({n}) gave {got!r}, expected {exp or None!r}"
            if op == "read":
                pos += len(exp)
    return None


def lemmas(k, ioutil):
    """The trusted lemmas of contracts/readers.py, exhaustively to length 6."""
    if not hasattr(ioutil, "CARRIAGE_RETURN_LIKE") or not hasattr(ioutil, "SURROGATE"):
        return None
    P = lambda x: ioutil.SURROGATE.sub("\ufffd", ioutil.CARRIAGE_RETURN_LIKE.sub("\n", x))
    for n in range(0, 7):
        for i, t in enumerate(itertools.product("a\r\n\f\ud812", repeat=n)):
            if i % 4 != k:
                continue
            z = "".join(t)
            pz = P(z)
            if pz != expected(z):
                return f"preprocessing of {z!r} is {pz!r}"
            for c in range(n + 1):
                a, b = z[:c], z[c:]
                if a.endswith("\r") and b.startswith("\n"):
                    ok = pz == P(a) + P(b[1:])
                else:
                    ok = pz == P(a) + P(b)
                ok = ok and (not a or (P(a) and 2 * len(P(a)) >= len(a) and len(P(a)) <= len(a) and pz.startswith(P(a)[:-1]) and len(pz) >= len(P(a))))
                if not ok:
                    return f"lemma fails for {a!r} + {b!r}"
    return None
