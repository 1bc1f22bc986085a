"""A ghost disk: which files there are and what each holds.

Paths are strings, joined as posixpath does; folders are not modelled (making
them is trusted).  A file object's writes go to the disk as they are made."""
import builtins
import hashlib
import base64
import importlib
import os
import shutil
import z3

from vc.contracts import Contract
from vc.engine import B, _and, _or
from vc.values import *

Content = TU("Content")
FS = TMap(TStr, Content)
TEXT = z3.Function("content_of_text", z3.StringSort(), Content.sort())
DIR = z3.Function("folder_of", z3.StringSort(), z3.StringSort())
HASH = z3.Function("sha256_of", Content.sort(), Content.sort())
B64 = z3.Function("urlsafe_base64_of", Content.sort(), z3.StringSort())
NOBYTES = z3.Const("no_bytes", Content.sort())


def sv(x):
    return z3.StringVal(x)


def join(a, b):
    """posixpath.join of two parts."""
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_string_value(a) and z3.is_string_value(b):
        return sv(os.path.join(a.as_string(), b.as_string()))
    if z3.is_string_value(a) and a.as_string() not in ("",) and not a.as_string().endswith("/"):
        return z3.If(z3.PrefixOf(sv("/"), b), b, z3.Concat(sv(a.as_string() + "/"), b))
    return z3.If(z3.PrefixOf(sv("/"), b), b, z3.If(z3.Or(a == sv(""), z3.SuffixOf(sv("/"), a)), z3.Concat(a, b), z3.Concat(a, sv("/"), b)))


class File:
    pass


class Sha:
    pass


class Disk(Contract):
    strings = True

    def disk(self, st):
        self.fs0 = FS.const("disk0")
        st.ghost["$disk"] = S(FS, self.fs0)

    def fs(self, st):
        return st.ghost["$disk"].e

    def put(self, st, p, c):
        f = self.fs(st)
        st.ghost["$disk"] = S(FS, FS.mk(z3.Store(FS.has(f), p, z3.BoolVal(True)), z3.Store(FS.get(f), p, c)))

    def has(self, f, p):
        return z3.Select(FS.has(f), p)

    def get(self, f, p):
        return z3.Select(FS.get(f), p)

    def stored(self, f, p, c):
        return FS.mk(z3.Store(FS.has(f), p, z3.BoolVal(True)), z3.Store(FS.get(f), p, c))

    def context(self, st, **fields):
        """A build context; its folder neither empty nor ending in a slash."""
        cls = importlib.import_module("vanillaplusjs.build.build_context").BuildContext
        self.folder = z3.String("folder")
        st.assume(self.folder != sv(""), z3.Not(z3.SuffixOf(sv("/"), self.folder)))
        self.symlinks = z3.Bool("symlinks")
        return st.alloc(ObjCell(cls, {"folder": S(TStr, self.folder), "symlinks": S(TBool, self.symlinks), **fields}))

    def at(self, rel):
        return join(self.folder, rel)

    def with_hook(self, E, st, m):
        if isinstance(m, L) and isinstance(st.heap[m.lid], ObjCell) and st.heap[m.lid].cls is File:
            return [(st, m)]
        return None

    def exit_hook(self, E, st, m):
        if isinstance(m, L) and isinstance(st.heap[m.lid], ObjCell) and st.heap[m.lid].cls is File:
            return [(st, NONE)]
        return None

    def method_hook(self, E, st, recv, name, args, kwargs):
        if isinstance(recv, S) and recv.t == Content and name == "decode":
            return [(st, S(TStr, B64_TEXT(recv.e)))]
        if not isinstance(recv, L) or not isinstance(st.heap[recv.lid], ObjCell):
            return None
        c = st.heap[recv.lid]
        if c.cls is File and name == "write":
            assert c.fields["mode"].v == "w"
            t = z3.Concat(c.fields["text"].e, E.embed(st, args[0], TStr))
            st.heap[recv.lid] = ObjCell(File, {**c.fields, "text": S(TStr, t)})
            self.put(st, c.fields["path"].e, TEXT(t))
            return [(st, C(None))]
        if c.cls is File and name == "read" and not args:
            if c.fields["mode"].v != "rb":
                raise Unsupported("reading text")
            return [(st, S(Content, self.get(self.fs(st), c.fields["path"].e)))]
        if c.cls is File and name == "close":
            return [(st, NONE)]
        if c.cls is Sha and name == "update":
            if c.fields["data"] is not None and c.fields["data"].v is not None:
                raise Unsupported("hash of several parts")
            st.heap[recv.lid] = ObjCell(Sha, {"data": args[0]})
            return [(st, NONE)]
        if c.cls is Sha and name == "digest":
            d = c.fields["data"]
            return [(st, S(Content, HASH(NOBYTES if isinstance(d, C) else d.e)))]
        return None

    def call_hook(self, E, st, f, args, kwargs):
        if isinstance(f, C) and type(getattr(f.v, "__self__", None)).__module__.startswith("loguru"):
            return [(st, NONE)]
        return None

    def models(self):
        s = lambda E, st, x: E.embed(st, x, TStr)

        def pjoin(E, st, a, k):
            r = s(E, st, a[0])
            for x in a[1:]:
                r = join(r, s(E, st, x))
            return [(st, S(TStr, r))]

        def exists(E, st, a, k):
            return [(st, S(TBool, self.has(self.fs(st), s(E, st, a[0]))))]

        def dirname(E, st, a, k):
            return [(st, S(TStr, DIR(s(E, st, a[0]))))]

        def same(E, st, a, k):
            return [(st, a[0])]

        def nothing(E, st, a, k):
            return [(st, NONE)]

        def copy(E, st, a, k):
            src, dst = s(E, st, a[0]), s(E, st, a[1])
            E.oblige(st, "the-source-is-there", self.has(self.fs(st), src))
            self.put(st, dst, self.get(self.fs(st), src))
            return [(st, NONE)]

        def symlink(E, st, a, k):
            E.oblige(st, "a-link-replaces-nothing", z3.Not(self.has(self.fs(st), s(E, st, a[1]))))
            return copy(E, st, a, k)

        def open_(E, st, a, k):
            p = s(E, st, a[0])
            mode = k.get("mode", a[1] if len(a) > 1 else C("r")).v
            if mode not in ("r", "rb", "w"):
                raise Unsupported(f"open mode {mode}")
            f = {"path": S(TStr, p), "mode": C(mode), "text": S(TStr, sv(""))}
            if mode == "w":
                self.put(st, p, TEXT(sv("")))
                return [(st, st.alloc(ObjCell(File, f)))]
            out = []
            ok, bad = E.fork(st, self.has(self.fs(st), p))
            if ok is not None:
                out.append((ok, ok.alloc(ObjCell(File, f))))
            if bad is not None:
                out.append((bad, Raised(FileNotFoundError)))
            return out

        def sha(E, st, a, k):
            return [(st, st.alloc(ObjCell(Sha, {"data": a[0] if a else C(None)})))]

        def b64(E, st, a, k):
            return [(st, S(TB64, E.embed(st, a[0], Content)))]
        io = importlib.import_module("vanillaplusjs.build.ioutil")
        return {os.path.join: pjoin, os.path.exists: exists, os.path.dirname: dirname, os.path.abspath: same, io.makedirs_safely: nothing, os.makedirs: nothing, shutil.copyfile: copy, os.symlink: symlink, builtins.open: open_, hashlib.sha256: sha, base64.urlsafe_b64encode: b64}


TB64 = Content  # encoded digests: decode() gives their text


def B64_TEXT(e):
    return B64(e)
