ID='c07_read_all_forgets'
PROP='C07'
EDITS=[('vanillaplusjs/build/ioutil.py', '            res = self.buffer + (self.fp.read() or "")', '            res = self.fp.read() or self.buffer')]
DEMO='\nimport io\nfrom vanillaplusjs.build.ioutil import PeekableTextIO\np = PeekableTextIO(io.StringIO("abcdef"))\nassert p.peek(2) == "ab"\nassert p.read(-1) == "abcdef", "read(-1)"\nassert p.read(-1) is None\n'
NEEDS='peeking at some characters and then reading all remaining ones'
BREAKS='characters already peeked at are lost'
