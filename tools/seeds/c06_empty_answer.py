ID='c06_empty_answer'
PROP='C06'
EDITS=[('vanillaplusjs/build/css/builder.py', 'if replacement_tokens is not None:', 'if replacement_tokens:')]
DEMO='\nfrom vanillaplusjs.build.css.builder import CSSBuilder\nclass A:\n    def start_mark(self, t): return t["value"] == "x"\n    def continue_mark(self, t): return None if t["value"] == "x" else []\nb = CSSBuilder([A()])\nfor c in "axybc":\n    b.handle_token({"type": 0, "value": c})\nr = [t["value"] for t in b.consume_tokens()]\nassert r == ["a", "b", "c"], r\n'
NEEDS='a manipulator that answers with no tokens (removing its span)'
BREAKS='the manipulator keeps receiving tokens after it answered, so the rest of the stream is lost'
