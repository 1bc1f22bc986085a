ID='c19_escaped_start'
PROP='C19'
EDITS=[('vanillaplusjs/build/js/tokenizer.py', '''    if nine[1] == "{":
''', '''    if nine[1] == "{" and "}" in nine[:8]:
''')]
DEMO='''
import io
from vanillaplusjs.build.js.tokenizer import tokenize
x = "\\\\u{1d7d8} a\\\\u{01d7d8}b"
toks = [t["value"] for t in tokenize(io.StringIO(x)) if t["type"].value == "Identifier"]
assert toks == ["\\U0001d7d8", "a\\U0001d7d8b"], toks
'''
NEEDS='a \\u{...} escape in an identifier that has six digits'
BREAKS='the escape is not recognised, so the identifier is cut short there'
