ID='c05_star_run'
PROP='C05'
EDITS=[('vanillaplusjs/build/js/tokenizer.py', '''    while (peeked := peekable.peek(2)) and peeked != "*/":
        res += peekable.read(1)
''', '''    while (peeked := peekable.peek(2)) and peeked != "*/":
        # a star that does not end the comment is taken with what follows it
        res += peekable.read(2 if peeked[0] == "*" else 1)
''')]
DEMO='''
import io
from vanillaplusjs.build.js.tokenizer import tokenize
from vanillaplusjs.build.js.serializer import serialize
x = "/** doc **/ import 'a'; /* b */ c"
out = "".join(serialize(t) for t in tokenize(io.StringIO(x)))
assert out.replace('"', "'") == x, out
kinds = [t["type"].value for t in tokenize(io.StringIO(x))]
assert "import" in kinds and kinds.count("Comment") == 2, kinds
'''
NEEDS='a block comment that ends with an even number of stars before the slash'
BREAKS='the end of the comment is missed, so the code up to the next comment is commented out'
