"""C02: contract of process_path over any path.

Texts are terms.  What posixpath does is taken as it is documented; the terms
that stand for the same text (a path in parts, and its parts joined) are made
the same by the models.  A sequence has any number of parts, of which an
arbitrary one is looked at with the others being arbitrary too.
"""
import os
import pathlib
import posixpath

from contracts.c07 import run
from pyvc.engine import FocusSeq, Model, Opaque, Star, Unsupported, current

TRUSTED = [
    "posixpath: normpath, dirname, basename, split and join as documented; pathlib: parts, root, drive, anchor, str and as_posix agree with each other",
    "escape_path: its results have no slash, no null and no dot in front (C01), so that they stay one element of the joined path",
    "File hands every path to process_path (C03, C06, C21)",
]


class Text(Model):
    """A text: a term, and whether it holds a null."""

    def __init__(self, term, null=None, empty=None):
        self.term, self.null, self.empty = term, null, empty

    def __repr__(self):
        return f"<{self.term}>"

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_type(self):
        return str

    def sym_contains(self, x):
        if x != "\x00":
            raise Unsupported("search in a text")
        if self.null is None:
            self.null = current().choose(2, f"null in {self.term}") == 1
        return self.null

    def count(self, x):
        if not self.sym_contains(x):
            return 0
        raise Unsupported("count")

    def find(self, x):
        if not self.sym_contains(x):
            return -1
        return 0

    def sym_bool(self):
        if self.empty is None:
            self.empty = current().choose(2, f"{self.term} is empty") == 1
        return not self.empty

    def sym_len(self):
        return 1 if self.sym_bool() else 0

    def sym_eq(self, o):
        if o == "":
            return not self.sym_bool()
        if isinstance(o, Text) and o.term == self.term:
            return True
        raise Unsupported("comparison of texts")

    def sym_str(self, *a):
        return self

    def encode(self, *a):
        raise Unsupported("encode")

    def sym_binop(self, op, o, refl):
        raise Unsupported("joined by hand")


class Bytes(Model):
    def __init__(self, label):
        self.label = label
        self.bad = None

    def sym_isinstance(self, cls):
        return issubclass(bytes, cls)

    def sym_type(self):
        return bytes

    def decode(self, enc="utf-8", errors="strict"):
        if enc.lower().replace("_", "-") not in ("utf-8", "utf8") or errors != "strict":
            raise Unsupported("another encoding")
        if self.bad is None:
            self.bad = current().choose(2, f"{self.label} is not UTF-8") == 1
        if self.bad:
            raise UnicodeDecodeError("utf-8", b"", 0, 1, "invalid start byte")
        return text_of(self)

    def sym_str(self, *a, **k):
        if not a and not k:
            raise Unsupported("text of bytes")
        return self.decode(*a, **k)


def text_of(x):
    """The one text of bytes or of a path, within this path through the code."""
    h = current().interp.hooks["texts"]
    if id(x) not in h:
        h[id(x)] = (x, Text(("text", x.label)))
    return h[id(x)][1]


class Parts(Model):
    """The parts of a path, with an anchor in front or not."""

    def __init__(self, path, tail=False):
        self.path, self.tail = path, tail

    def sym_isinstance(self, cls):
        return issubclass(tuple, cls)

    def sym_getitem(self, i):
        if isinstance(i, slice) and i.start == 1 and i.stop is None and i.step is None and not self.tail:
            return Parts(self.path, True)
        raise Unsupported("a part of a path")

    def sym_iter(self):
        return FocusSeq([(True, Part(self))])


class Part(Model):
    def __init__(self, parts):
        self.parts = parts


class Path(Model):
    """A pure path: relative, absolute, or absolute in the way of Windows."""

    def __init__(self, label, windows, root):
        self.label, self.windows, self.root = label, windows, root
        self.parts = Parts(self)

    def __repr__(self):
        return f"<path {self.label} with root {self.root!r}>"

    def sym_isinstance(self, cls):
        return issubclass(pathlib.PureWindowsPath if self.windows else pathlib.PurePosixPath, cls)

    def sym_type(self):
        return pathlib.PureWindowsPath if self.windows else pathlib.PurePosixPath

    def is_absolute(self):
        if self.windows:
            raise Unsupported("is_absolute")
        return self.root != ""

    def as_posix(self):
        if self.windows:
            raise Unsupported("as_posix")
        return text_of(self)

    def sym_str(self):
        # of a path of Windows it is not the POSIX form
        if self.windows:
            h = current().interp.hooks["texts"]
            if ("str", id(self)) not in h:
                h["str", id(self)] = Text(("as Windows has it", self.label))
            return h["str", id(self)]
        return text_of(self)



class Parted(FocusSeq):
    """A sequence of parts given by the user."""

    def __init__(self, elems, pytype):
        super().__init__(elems, pytype)


def path_text(p):
    """The POSIX form of a path: its parts joined, below the root if it has one."""
    return text_of(p)


def join(*a):
    if len(a) == 2 and isinstance(a[1], Star) and a[0] in ("", "/"):
        els = a[1].elems
        if len(els) == 1 and isinstance(els[0][1], Part):
            parts = els[0][1].parts
            p = parts.path
            # relative, or with the root as its first part
            if a[0] == "" and not parts.tail and p.root in ("", "/", "//"):
                return path_text(p)
            # the anchor left out, below the root
            if a[0] == "/" and parts.tail and p.root not in ("",):
                return path_text(p)
            return Text(("joined otherwise", p.label, a[0], parts.tail))
    if len(a) == 1 and isinstance(a[0], Star):
        els = a[0].elems
        if len(els) == 1 and isinstance(els[0][1], Part):
            return join("", a[0])
        return joined(els)
    if len(a) == 2 and a[0] == "" and isinstance(a[1], Star):
        return joined(a[1].elems)
    if a and all(isinstance(x, Text) for x in a):
        return joined([(False, x) for x in a])
    if not a:
        raise TypeError("join() missing 1 required positional argument")
    raise Unsupported("join")


def joined(els):
    null = [x.null for _, x in els]
    t = Text(("joined", tuple((g, x.term) for g, x in els)))
    if all(n is False for n in null):
        t.null = False
    return t


def derived(fn):
    def go(x):
        if not isinstance(x, Text):
            raise Unsupported(fn)
        h = current().interp.hooks["texts"]
        k = (fn, x.term)
        if k not in h:
            h[k] = Text((fn, x.term), null=False if x.null is False else None, empty=False if fn == "normpath" else None)
        return h[k]

    return go


def escaped(x):
    h = current().interp.hooks["texts"]
    t = text_of(x) if isinstance(x, Bytes) else x
    if isinstance(x, Bytes):
        t = x.decode()
    if not isinstance(t, Text):
        raise Unsupported("escaping something else")
    k = ("escaped", t.term)
    if k not in h:
        h[k] = Text(k, null=False)
    return h[k]


def setup(ctx):
    it = ctx.interp
    it.list_factory = lambda: FocusSeq(())
    it.hooks["texts"] = {}
    it.hooks["segment_empty"] = lambda x: False
    m = it.models
    m[posixpath.join] = join
    for n in ("normpath", "dirname", "basename"):
        m[getattr(posixpath, n)] = derived(n)
    m[posixpath.split] = lambda x: (derived("dirname")(x), derived("basename")(x))
    m[os.fspath] = lambda x: x if isinstance(x, Text) else x.sym_str()
    it.hooks["join"] = lambda sep, seq: slashes(sep, seq)
    it.by_name["escape_path"] = escaped
    return it


def slashes(sep, seq):
    if sep == "/" and all(isinstance(x, Text) and x.term[0] == "escaped" for _, x in seq.take()):
        # none of them starts with a slash
        return joined(seq.take())
    raise Unsupported("joined by hand")


def whole(ctx, text):
    """The group and the target that a text is to give."""
    n = derived("normpath")(text)
    return derived("dirname")(n), derived("basename")(n)


def check(ctx, r, e, text):
    """text: what is to be split, or the error that is to be raised."""
    if isinstance(text, type):
        ctx.oblige(f"outcome:{text.__name__}", isinstance(e, text), f"{e!r} {r!r}")
        ctx.cover("refused")
        return
    if text.null:
        ctx.oblige("outcome:nulls are refused with ValueError", isinstance(e, ValueError), f"{e!r} {r!r}")
        ctx.cover("refused")
        return
    ctx.oblige("outcome:no error", e is None, repr(e))
    if e is not None:
        return
    ctx.cover("split")
    ctx.oblige("outcome:nulls are refused with ValueError", text.null is False, "nulls are not looked for")
    ok = isinstance(r, tuple) and len(r) == 2
    ctx.oblige("result:a group and a target", ok, repr(r))
    if not ok:
        return
    for got, want, none in zip(r, whole(ctx, text), ("/", ".")):
        if want.empty is None and got is want:
            ctx.oblige(f"result:{none} stands for nothing", False, "an empty text is not looked for")
        elif want.empty:
            ctx.oblige(f"result:{none} stands for nothing", got == none if isinstance(got, str) else False, repr(got))
        else:
            ctx.oblige("result:the parts of the normalised path", got is want, f"{got!r} {want!r}")


def proc_one(kind):
    def go(ctx):
        from hdf5storage import pathesc

        it = setup(ctx)
        if kind == "str":
            x = want = Text(("text", "path"))
        elif kind == "bytes":
            x = Bytes("path")
            want = None
        elif kind in ROOTS:
            x = Path("path", *ROOTS[kind])
            want = text_of(x)
        else:
            x, want = Opaque("something else", (kind,), True), TypeError
        r, e = run(it, pathesc.process_path, [x])
        if kind == "bytes":
            ctx.oblige("outcome:bytes are taken as UTF-8", x.bad is not None)
            want = UnicodeDecodeError if x.bad else text_of(x)
        check(ctx, r, e, want)

    return go


ROOTS = {
    "relative path": (False, ""), "absolute path": (False, "/"), "path with two slashes": (False, "//"),
    "relative path of Windows": (True, ""), "absolute path of Windows": (True, "\\"),
}


def proc_seq(tp, focus):
    def go(ctx):
        from hdf5storage import pathesc

        it = setup(ctx)
        other = ctx.pick([str, bytes, "path"], "types of the other parts")

        def make(k, label):
            if k is str:
                return Text(("text", label))
            if k is bytes:
                b = Bytes(label)
                if label != "the part":
                    b.bad = False
                return b
            if k == "path":
                return Path(label, *ROOTS[ctx.pick(["relative path", "absolute path of Windows"], "kind of path")])
            return Opaque(label, (k,), True)

        elems = [(True, make(other, "earlier parts"))] if ctx.choose(2, "earlier ones") == 1 else []
        here = make(focus, "the part")
        elems.append((False, here))
        if ctx.choose(2, "later ones") == 1:
            elems.append((True, make(other, "later parts")))
        r, e = run(it, pathesc.process_path, [Parted(elems, tp)])
        if focus not in (str, bytes, "path"):
            return check(ctx, r, e, TypeError)
        if isinstance(here, Bytes):
            ctx.oblige("outcome:bytes are taken as UTF-8", here.bad is not None, repr(e))
            if here.bad is None:
                return
        if isinstance(here, Bytes) and here.bad:
            return check(ctx, r, e, UnicodeDecodeError)
        texts = [(g, escaped(x.sym_str() if isinstance(x, Path) else x)) for g, x in elems]
        want = joined(texts)
        want.null = False
        check(ctx, r, e, want)

    return go


def procedures(tier):
    out = [(f"process_path of {k if isinstance(k, str) else 'a ' + k.__name__}", proc_one(k), dict(must_cover={"split" if isinstance(k, str) else "refused"}))
           for k in ("str", "bytes", *ROOTS, int, type(None), dict, set, float, object)]
    for tp in (list, tuple):
        for f in (str, bytes, "path", int, type(None), list, bytearray):
            out.append((f"process_path of a {tp.__name__} with a part of {f if isinstance(f, str) else f.__name__}", proc_seq(tp, f),
                        dict(must_cover={"split" if f in (str, bytes, "path") else "refused"})))
    return out
