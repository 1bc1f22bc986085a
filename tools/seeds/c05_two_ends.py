ID='c05_two_ends'
PROP='C05'
EDITS=[('vanillaplusjs/build/js/serializer.py', '''        cleaned = token["value"].replace("*/", "*\\\\/")
''', '''        cleaned = token["value"].replace("*/", "*\\\\/", 1)
''')]
DEMO='''
import io
from vanillaplusjs.build.js.tokenizer import tokenize
from vanillaplusjs.build.js.serializer import serialize
x = "// globs: src/*/a and lib/*/b\\nf()\\n"
out = "".join(serialize(t) for t in tokenize(io.StringIO(x)))
assert out.index("*/") == out.index("\\n") - 2, out
'''
NEEDS='a line comment that holds the end-of-comment marker twice'
BREAKS='the rest of the line comment becomes code'
