"""JS is rewritten without changing what it means: programs are generated piece
by piece with the reading ECMAScript gives each piece, and both the tokens and
the text written back are compared with it."""
import io
import re

RULE = "random sequences of ECMAScript lexical elements (identifiers, numbers, punctuators, strings with every kind of escape, comments, regular expressions where one can start, nested templates) with the reading the grammar gives them, one string literal per code point, and arbitrary texts; non-trivial when the program has a string, comment, regular expression or template"
SIMPLE = {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f", "v": "\v", "0": "\0"}
LITERAL = re.compile(r"""(["'])((?:\\[\s\S]|(?!\1)[^\\\n\r])*)\1""")
ESC = re.compile(r"\\(?:x([0-9a-fA-F]{2})|u([0-9a-fA-F]{4})|u\{([0-9a-fA-F]+)\}|(\r\n|[\s\S]))")
KIND = {"{": "OpenCurlyBracket", "}": "CloseCurlyBracket", "*": "Asterisk", ",": "Comma", ";": "Semicolon"}
NAME = {v: k for k, v in KIND.items()}


def preload():
    import vanillaplusjs.build.js.tokenizer
    import vanillaplusjs.build.js.serializer


def value_of(body):
    """The string a literal's body stands for (ECMAScript SV)."""
    def one(m):
        h = m.group(1) or m.group(2) or m.group(3)
        if h:
            return chr(int(h, 16))
        c = m.group(4)
        if c in ("\n", "\r", "\r\n", "\u2028", "\u2029"):
            return ""
        return SIMPLE.get(c, c)
    return ESC.sub(one, body)


CHARS = ["a", "Z", "9", " ", "\"", "'", "`", "/", "*", "$", "{", "}", "\t", "\x00", "\x7f", "\x80", "\xff", "\u0100", "\u2028", "\u2029", "\ufeff", "\uffff", "\U00010000", "\U0010ffff", "\ud800", "\\"]


def string_piece(rng, quote=None, chars=None):
    q = quote or rng.choice("\"'")
    src, val = q, ""
    cs = chars if chars is not None else [rng.choice(CHARS) if rng.random() < 0.7 else chr(rng.choice([rng.randrange(0x20, 0x180), rng.randrange(0x2000, 0x2100), rng.randrange(0x10000, 0x110000)])) for _ in range(rng.randint(0, 6))]
    for c in cs:
        if c in "\n\r" or 0xD800 <= ord(c) < 0xE000:
            form = "u"
        else:
            form = rng.choice(["raw", "raw", "raw", "x", "u", "U", "ub", "\\", "cont"])
        k = ord(c)
        if form == "x" and k <= 0xFF:
            s = f"\\x{k:02{rng.choice('xX')}}"
        elif form in ("u", "U") and k <= 0xFFFF:
            s = f"\\u{k:04x}" if form == "u" else f"\\u{k:04X}"
        elif form == "ub" or (form == "u" and k > 0xFFFF):
            s = "\\u{" + f"{k:x}".rjust(rng.randint(1, 6), "0") + "}"
        elif form == "\\":
            n = rng.choice(list(SIMPLE) + ["\\", q, "q", "$", "`", "/"])
            s, c = "\\" + n, SIMPLE.get(n, n)
        elif form == "cont":
            s, c = "\\\n", ""
        else:
            s = "\\" + c if c in (q, "\\") else c
        if src.endswith("\\0") and s[:1] in tuple("0123456789"):
            s = "\\x%02x" % ord(c)
        src += s
        val += c
    return src + q, ("string", val)


def ident(rng):
    w = rng.choice(["a", "b1", "$", "_x", "import", "from", "as", "export", "class", "const", "importx", "$from", "été", "\U00010341", "of2", "let"])
    if rng.random() < 0.15:
        return "\\u0061\\u{62}", ("ident", "ab")
    return w, (w, None) if w in ("import", "from", "as") else ("ident", w)


def regex(rng):
    body = ""
    for _ in range(rng.randint(1, 5)):
        body += rng.choice(["a", "\\/", "[/]", "[^/\\]\"]", "\"", "'", "`", "\\\\", "(?:x)", "[a-z/*]", "\\[", "$", "{2}", ".", "//"[:0], "é"])
    if body[0:1] in ("*", ""):
        body = "x" + body
    return f"/{body}/" + rng.choice(["", "g", "gi", "u", "s", "y", "m"]), ("verbatim", None)


def comment(rng):
    t = "".join(rng.choice(["x", " ", "*", "/", "\"", "'", "`", "//", "${", "é", "\\"]) for _ in range(rng.randint(0, 6)))
    if rng.random() < 0.5:
        return "//" + t + "\n", ("line", t)
    t = t.replace("*/", "* /")
    if t.endswith("*") and rng.random() < 0.5:
        t += "*"
    t = t.replace("*/", "* /")
    return f"/*{t}*/", ("block", t)


def template(rng, depth):
    """-> list of (source, expected)"""
    out, s = [], ""

    def text(s):
        return re.sub(r"\\[\s\S]|\$\{", lambda m: m.group(0) if m.group(0)[0] == "\\" else "$ {", s)
    for _ in range(rng.randint(0, 4)):
        if depth < 2 and rng.random() < 0.35:
            out.append(("}`"[not out] + text(s) + "${", ("verbatim", None)))
            out += program(rng, rng.randint(0, 4), depth + 1)
            s = ""
        else:
            s += rng.choice(["a", "\"", "'", "//", "/*", "\\`", "\\${", "$", "{", "}", "\n", "\\\\", "é"])
    out.append(("}`"[not out] + text(s) + "`", ("verbatim", None)))
    return out


def program(rng, n, depth=0):
    """Lexical elements of a plausible program, each with what it reads as."""
    out = []
    expr = True  # an expression, and so a regular expression, can start here
    stack = 0
    for _ in range(n):
        if rng.random() < 0.25:
            if rng.random() < 0.5:
                out.append((rng.choice([" ", "  ", "\t", "\u00a0", "\ufeff"]), ("verbatim", None)))
            elif rng.random() < 0.5:
                out.append(("\n", ("verbatim", None)))
            else:
                out.append(comment(rng))
            continue
        if expr:
            c = rng.choice(["ident", "number", "string", "string", "regex", "template", "punct", "array"])
        else:
            c = rng.choice(["op", "op", "div", "semi", "comma"])
        if c == "ident":
            p = ident(rng)
            if out and out[-1][1][0] not in ("verbatim", "line", "block") or out and re.search(r"[\w$]$", out[-1][0]):
                out.append((" ", ("verbatim", None)))
            out.append(p)
            expr = False
            if rng.random() < 0.2:
                out.append((" ", ("verbatim", None)))
                out.append((rng.choice(["return", "typeof", "in", "of", "case"]), ("ident*", None)))
                expr = True
        elif c == "number":
            if out and re.search(r"[\w$.]$", out[-1][0]):
                out.append((" ", ("verbatim", None)))
            out.append((rng.choice(["1", "0x1F", "1e3", "1_000", "3.14", "10n"]), ("number", None)))
            expr = False
        elif c == "string":
            out.append(string_piece(rng))
            expr = False
        elif c == "regex":
            out.append(regex(rng))
            out.append((" ", ("verbatim", None)))
            expr = False
        elif c == "template":
            out += template(rng, depth)
            expr = False
        elif c == "punct":
            p = rng.choice(["(", "[", "!", "~", "{"])
            out.append((p, (p, None) if p == "{" else ("verbatim", None)))
            if p == "{":
                stack += 1
        elif c == "array":
            out.append(("[]", ("verbatim", None)))
            expr = False
        elif c == "op":
            p = rng.choice(["+", "-", "=", "=>", "&&", "?", ":", "<", "*", "%", "**", "."])
            out.append((p, ("*" * len(p), None) if p[0] == "*" else ("verbatim", None)))
            if p == ".":
                out.append(("p", ("ident", "p")))
            else:
                expr = True
        elif c == "div":
            # no quote or comment start may follow directly
            out.append((" / ", ("verbatim", None)))
            expr = True
        elif c == "semi":
            out.append((";", (";", None)))
            expr = True
        else:
            out.append((",", (",", None)))
            expr = True
    for _ in range(stack):
        if not depth and rng.random() < 0.3:
            break
        out.append(("}", ("}", None)))
        expr = True
    return out


def fixed():
    out = [{"block": k} for k in list(range(0, 0x3000, 0x400)) + list(range(0xD000, 0x11000, 0x800)) + [0x1F000, 0x10FC00]]
    out += [{"pieces": [list(map(lambda z: z, p))]} for p in [("//a*/b\n", ("line", "a*/b")), ("//**//\n", ("line", "**//")), ("/***/", ("block", "*"))]]
    out += [{"text": t} for t in ["", "\"", "'\\", "\"\\u", "\"\\u{", "\"\\u{}\"", "\"\\u{110000}\"", "\"\\x4", "`", "`${", "`${`", "/", "/[", "/\\", "/*", "//", "a\\", "\\u12", "\\u{", "}", "}`", "{`${{}}`}", "a\r\nb\rc\fd"]]
    return out


def rand(rng):
    if rng.random() < 0.2:
        return {"text": "".join(rng.choice(["a", "\"", "'", "`", "/", "*", "\\", "{", "}", "${", "u", "x", "1", "\n", "\r", "[", "]", " ", "\u2028", "é", "import "]) for _ in range(rng.randint(1, 14)))}
    return {"pieces": [[s, list(e)] for s, e in program(rng, rng.randint(1, 14))]}


def nontrivial(case):
    return "block" in case or "text" in case or any(e[0] in ("string", "line", "block") or s[:1] in "/`" for s, e in case["pieces"])


def process(x):
    from vanillaplusjs.build.js.tokenizer import tokenize
    from vanillaplusjs.build.js.serializer import serialize
    toks = list(tokenize(io.StringIO(x, newline="")))
    return toks, "".join(serialize(t) for t in toks)


def norm(x):
    x = x.replace("\r\n", "\n").replace("\r", "\n").replace("\f", "\n")
    return "".join("\ufffd" if 0xD800 <= ord(c) < 0xE000 else c for c in x)


def run(case):
    from vanillaplusjs.build.js.serializer import serialize_string
    if "block" in case:
        for k in range(case["block"], case["block"] + 0x400):
            for v in (chr(k), chr(k) + "1\"", "'" + chr(k) + "\"a"):
                try:
                    out = serialize_string(v)
                except Exception as e:
                    return f"serialize_string({v!r}): {type(e).__name__}: {e}"
                m = LITERAL.fullmatch(out)
                if not m or value_of(m.group(2)) != v:
                    return f"{v!r} is written as {out}, which is not a literal of that value"
        return None
    if "text" in case:
        x = case["text"]
        try:
            toks, out = process(x)
        except Exception as e:
            return f"{x!r}: {type(e).__name__}: {e}"
        if not any(c in x for c in "\"'\\") and "//" not in x and "/*" not in x:
            if out != norm(x).replace("\u2028", "\n").replace("\u2029", "\n") and "`" not in x and "/" not in x:
                return f"{x!r} became {out!r}"
            if out.replace("\u2028", "\n").replace("\u2029", "\n") != norm(x).replace("\u2028", "\n").replace("\u2029", "\n"):
                return f"{x!r} became {out!r}"
        return None
    pieces = [(s, tuple(e)) for s, e in case["pieces"]]
    x = "".join(s for s, _ in pieces)
    try:
        toks, out = process(x)
    except Exception as e:
        return f"{x!r}: {type(e).__name__}: {e}"
    i = 0
    for s, (kind, v) in pieces:
        if kind in ("line", "block"):
            # a comment with the same text, up to what keeps it one comment
            w = "/*" + v.replace("*/", "*\\/") + "*/" + ("\n" if kind == "line" else "")
        elif kind == "string":
            m = LITERAL.match(out, i)
            if not m or value_of(m.group(2)) != v:
                return f"{x!r}: the string {s} of value {v!r} became {m.group(0) if m else out[i:i + 20]!r}"
            i = m.end()
            continue
        elif kind == "ident":
            w = v
        else:
            w = norm(s)
        if out[i:i + len(w)] != w:
            return f"{x!r}: {s!r} became {out[i:i + len(w)]!r} in {out!r}"
        i += len(w)
    if i != len(out):
        return f"{x!r}: {out[i:]!r} was added at the end"
    got = []
    for t in toks:
        n = t["type"].value
        if n in ("as", "import", "from") or n in NAME:
            got.append((NAME.get(n, n), None))
        elif n == "Identifier":
            got.append(("ident", t["value"]))
        elif n == "StringLiteral":
            got.append(("string", t["value"]))
        elif n == "Comment":
            got.append(("comment", t["value"]))
    want = []
    for s, (kind, v) in pieces:
        if kind in ("line", "block"):
            want.append(("comment", v))
        elif kind in ("ident", "string"):
            want.append((kind, v))
        elif kind == "ident*":
            want.append(("ident", s))
        elif kind == "**":
            want += [("*", None)] * 2
        elif kind in KIND or kind in ("as", "import", "from"):
            want.append((kind, None))
        elif kind == "number":
            m = re.search(r"[a-zA-Z_]\w*$", s)
            if m:
                want.append(("ident", m.group(0)))
    if got != want:
        k = next(j for j in range(max(len(got), len(want))) if got[j:j + 1] != want[j:j + 1])
        return f"{x!r}: token {k} is {got[k:k + 1]}, expected {want[k:k + 1]}"
    return None
