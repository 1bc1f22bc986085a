"""Identifier characters against the Unicode database, for every code point,
and identifiers against an independent reading of ECMAScript's grammar."""
import io
import unicodedata

RULE = "every code point (in blocks of 4096) against ID_Start/ID_Continue, and random texts of identifiers, escapes and neighbouring characters through the tokenizer; non-trivial when the block or text has an identifier character"
# assigned in Unicode 15.0 or given a property later, so outside the table's version
LATER = [(0x0CF3, 0x0CF3), (0x0ECE, 0x0ECE), (0x200C, 0x200D), (0x30FB, 0x30FB), (0xFF65, 0xFF65), (0x10EFD, 0x10EFF), (0x1123F, 0x11241), (0x11F00, 0x11F59), (0x1342F, 0x1342F), (0x13440, 0x13455), (0x1B132, 0x1B132), (0x1B155, 0x1B155), (0x1DF25, 0x1DF2A), (0x1E030, 0x1E08F), (0x1E4D0, 0x1E4F9), (0x2B739, 0x2B739), (0x31350, 0x323AF)]
_ref = {}


def reference(prop):
    """-> (code points with the property, code points left open)"""
    if not _ref:
        free = {k for a, b in LATER for k in range(a, b + 1)}
        start, cont = set(), set()
        for k in range(0x110000):
            cat = unicodedata.category(chr(k))
            if cat in ("Lu", "Ll", "Lt", "Lm", "Lo", "Nl") and k != 0x2E2F or k in (0x1885, 0x1886, 0x2118, 0x212E, 0x309B, 0x309C):
                start.add(k)
            if k in start or cat in ("Mn", "Mc", "Nd", "Pc") or k in (0xB7, 0x387, 0x19DA) or 0x1369 <= k <= 0x1371:
                cont.add(k)
            if cat == "Cn":
                free.discard(k)
        _ref.update(start=(start, free), **{"continue": (cont, free)})
    return _ref[prop]


def preload():
    import vanillaplusjs.build.js.tokenizer
    reference("start")


def fixed():
    out = [{"block": k} for k in range(0, 0x110000, 0x1000)]
    for t in ["a", "$", "_", "$import", "_from", "import", "as", "from", "\\u0061b", "a\\u{62}c", "a\\u{10ffff}", "\\u{41}", "a\u200d\u200c", "1a", "\u0660a", "\U00010341x", "\u1034\u0031", "\U0001e800", "x\U000e0100", "a.b", "a$_1", "\\x41"]:
        out.append({"text": t})
    return out


PIECES = ["a", "Z", "$", "_", "0", "9", "\u200c", "\u200d", "\u0300", "\u2118", "\u00b7", "\u1885", "\U00010341", "\U0001d7d8", "\U000e0100", "\u2028", "-", ".", "\\u0061", "\\u{5f}", "\\u{1D7D8}", "\u30fb", "\u2e2f", "import", "as", "from", "\\", "\\u", "\\u00", "\\u{", "\\u{}", "\\u{110000}", "\u3007", "\u00aa", "\u0660"]


def rand(rng):
    def piece():
        if rng.random() < 0.3:
            return chr(rng.choice([rng.randrange(0x21, 0x500), rng.randrange(0x10000, 0x20000), rng.randrange(0x20000, 0x32000)]))
        return rng.choice(PIECES)
    return {"text": " ".join("".join(piece() for _ in range(rng.randint(1, 5))) for _ in range(rng.randint(1, 6)))}


def nontrivial(case):
    return True


def escape_at(x, i):
    """The unicode escape at x[i:], as (character, end), or None."""
    import re
    m = re.compile(r"\\u(?:([0-9a-fA-F]{4})|\{([0-9a-fA-F]{1,6})\})").match(x, i)
    if not m:
        return None
    k = int(m.group(1) or m.group(2), 16)
    return (chr(k), m.end()) if k <= 0x10FFFF else None


def run(case):
    from vanillaplusjs.build.js import unicode_derived as u
    if "block" in case:
        for prop, f in (("start", u.is_id_start), ("continue", u.is_id_continue)):
            ref, free = reference(prop)
            for k in range(case["block"], case["block"] + 0x1000):
                if k not in free and bool(f(chr(k))) != (k in ref):
                    return f"is_id_{prop}(U+{k:04X}) is {f(chr(k))}, Unicode says {k in ref}"
        return None
    from vanillaplusjs.build.js.tokenizer import tokenize
    x = case["text"]
    start, free = reference("start")
    cont, _ = reference("continue")
    if any(ord(c) in free and ord(c) not in (0x200C, 0x200D) for c in x) or any(c in x for c in "\"'`/\r\f") or any(0xD800 <= ord(c) < 0xE000 for c in x):
        return None
    try:
        toks = list(tokenize(io.StringIO(x)))
    except Exception as e:
        return f"{x!r}: {type(e).__name__}: {e}"
    # independent reading: maximal munch of identifier characters and escapes
    want, i = [], 0
    while i < len(x):
        v, e = "", i
        while e < len(x):
            esc = escape_at(x, e) if x[e] == "\\" else None
            if esc:
                v += esc[0]
                e = esc[1]
            elif x[e] in "$_" or ord(x[e]) in (cont if v else start) or (v and x[e] in "\u200c\u200d"):
                v += x[e]
                e += 1
            else:
                break
        if e > i:
            want.append(v)
            i = e
        else:
            i += 1
    got = []
    for t in toks:
        n = t["type"].value
        if n == "Identifier":
            got.append(t["value"])
        elif n in ("as", "import", "from"):
            got.append(n)
    if got != want:
        return f"{x!r}: identifiers {got}, expected {want}"
    return None
