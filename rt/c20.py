"""Type hints: whole scripts through the pipeline with the type-hint manipulator."""
import io
import os
import tempfile

from rt import c05

RULE = "random scripts (as for C05) with @@type-hint comments in every position, through build and scan; non-trivial when some line holds such a comment"
HINTS = ["// @@type-hint\n", "/* @@type-hint */", "//@@type-hint\n", "/*@@type-hint*/", "/*\n @@type-hint \n*/", "// @@type-hint2\n", "//@@ type-hint\n", "/* x @@type-hint */", "// @@type-hint", "/* see below\n@@type-hint */", "/*@@type-hint\nmore*/", "/*@@type-hint*//*@@type-hint*/", "/** @@type-hint */", "//@@TYPE-HINT\n", "//\u00a0@@type-hint\u2003\n", "'@@type-hint'", "/@@type-hint/", "//@@type-hint//\n", "/* @@type-hint\t*/", "// @@type-hint: any\n", "`@@type-hint`", "/*\n\n@@type-hint\n\n*/"]


def preload():
    import vanillaplusjs.build.js.manipulate_and_serialize
    import vanillaplusjs.build.js.manips.type_hints


def fixed():
    out = []
    for h in HINTS:
        for pre in ("", "a; ", "\n\n", "function f(); ", "/* a */ b /* c */ ", "'x' + `\n` ", "{\n"):
            for post in ("", "\nb", " z\n", "\n\n", "\n // @@type-hint"):
                out.append({"text": pre + h + post})
    return out


def rand(rng):
    x = ""
    for _ in range(rng.randint(1, 5)):
        x += "".join(s for s, _ in c05.program(rng, rng.randint(0, 4)))
        r = rng.random()
        x += rng.choice(HINTS + ["\n", " ", ""]) if r < 0.7 else rng.choice(["/*%s*/", "//%s\n"]) % "".join(rng.choice(["@@type-hint", " ", "\n", "\t", "x", "@@", "*", "", "\ufeff"]) for _ in range(rng.randint(1, 3))) if r < 0.9 else ""
        x += rng.choice(["", "\n", ";"])
    return {"text": x}


def lines(text):
    from vanillaplusjs.build.js.tokenizer import tokenize
    line = []
    for t in tokenize(io.StringIO(text, newline="")):
        n = t["type"].value
        if n == "EOF":
            break
        if n == "LineTerminator":
            yield line, t
            line = []
        else:
            line.append(t)
    yield line, None


def is_hint(line):
    return any(t["type"].value == "Comment" and t["value"].strip() == "@@type-hint" for t in line)


def nontrivial(case):
    return "@@type-hint" in case["text"]


def run(case):
    from types import SimpleNamespace
    from vanillaplusjs.build.js.manipulate_and_serialize import manipulate_and_serialize
    from vanillaplusjs.build.js.manips.type_hints import TypeHintsManipulator
    from vanillaplusjs.build.js.serializer import serialize
    x = case["text"]
    if "\r" in x:
        return None
    want = ""
    for line, end in lines(x):
        s = "".join(serialize(t) for t in line)
        want += "/*" + s.replace("*/", "*\\/") + "*/" if is_hint(line) else s
        want += "\n" if end else ""
    if any(0xD800 <= ord(c) < 0xE000 for c in want):  # an identifier escape that is none
        return None
    with tempfile.TemporaryDirectory() as d:
        a, b = os.path.join(d, "a.js"), os.path.join(d, "b.js")
        with open(a, "w", encoding="utf-8", newline="") as f:
            f.write(x)
        try:
            m = TypeHintsManipulator(SimpleNamespace(), "src/public/a.js", "scan")
            manipulate_and_serialize(a, None, [m])
            m = TypeHintsManipulator(SimpleNamespace(), "src/public/a.js", "build")
            manipulate_and_serialize(a, b, [m])
        except Exception as e:
            return f"{x!r}: {type(e).__name__}: {e}"
        with open(b, encoding="utf-8", newline="") as f:
            got = f.read()
    if got != want:
        return f"{x!r} became {got!r}, expected {want!r}"
    return None
