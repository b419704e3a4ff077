"""C12: a dtype's text, and reading it back.

The text of a dtype is arbitrary but for its first character: that of a plain
dtype starts with a letter or a mark of the byte order and holds no quotes,
that of others is a literal (list, tuple or dict) that numpy.dtype takes.
"""
import ast

import numpy as np

from pyvc.engine import Model, Opaque, PathEnd, SBool, Unsupported, current

TRUSTED = [
    "numpy: str of a dtype is the text of a Python literal of a list, tuple or dict, or a name without quotes, and numpy.dtype of that is an equal dtype with "
    "the same field names in the same order (titles and aligned structures holding unaligned ones excluded; exercised by the bounded part)",
    "ast.literal_eval gives the value of a literal, and refuses everything else without evaluating it",
    "NumpyScalarArrayMarshaller (C08) gives back the bytes it was given; convert_to_str decodes UTF-8 (C10)",
]
FIRST = {"plain": ("f", "<", ">", "|", "=", "S", "U", "i", "c", "b", "v", "o"), "list": ("[",), "tuple": ("(",), "dict": ("{",)}


class D(Model):
    """An arbitrary dtype."""

    def __init__(self, form):
        self.form = form

    def __repr__(self):
        return f"<dtype, {self.form}>"

    def sym_isinstance(self, cls):
        return cls in (np.dtype, object)

    def sym_type(self):
        return Opaque("dtype class")

    def sym_str(self):
        return DText(self)

    def sym_eq(self, o):
        return self is o

    def sym_getattr(self, n):
        raise Unsupported(f"attribute {n} of a dtype")


class DText(Model):
    """The text of a dtype with something around it."""

    def __init__(self, d, pre="", post="", enc=None):
        self.d, self.pre, self.post, self.enc = d, pre, post, enc

    def __repr__(self):
        return f"{self.pre}{self.d}{self.post}{self.enc or ''}"

    def to(self, pre=None, post=None, enc=None):
        return DText(self.d, self.pre if pre is None else pre, self.post if post is None else post, enc if enc is not None else self.enc)

    def sym_isinstance(self, cls):
        return issubclass(np.bytes_ if self.enc else str, cls)

    def sym_type(self):
        return np.bytes_ if self.enc else str

    def sym_bool(self):
        return True

    def sym_str(self, *a):
        if self.enc:
            if a and a[0].lower().replace("-", "") == "utf8" and self.enc == "utf8":
                return DText(self.d, self.pre, self.post)
            raise Unsupported("text of bytes")
        return self

    def first(self):
        if self.pre:
            return self.pre[0]
        c = current()
        key = ("first", id(self.d))
        w = self.d.__dict__.setdefault("char", None)
        if w is None:
            w = self.d.char = c.pick(list(FIRST[self.d.form]), "first character")
        return w

    def sym_getitem(self, i):
        if self.enc:
            raise Unsupported("part of bytes")
        if i == 0 or isinstance(i, slice) and i.start in (None, 0) and i.stop == 1 and i.step is None:
            return self.first()
        raise Unsupported("part of the text of a dtype")

    def startswith(self, x):
        if isinstance(x, tuple):
            return any(self.startswith(y) for y in x)
        if self.pre and len(x) <= len(self.pre):
            return self.pre.startswith(x)
        if len(x) == 1:
            return self.first() == x
        raise Unsupported("start of the text of a dtype")

    def isalnum(self):
        raise Unsupported("isalnum")

    def sym_contains(self, x):
        if x in ("'", '"') and self.d.form == "plain" and x not in self.pre + self.post:
            return False
        raise Unsupported("search in the text of a dtype")

    def sym_binop(self, op, o, refl):
        if type(op).__name__ != "Add" and op != "Add" or not isinstance(o, str) or self.enc:
            raise Unsupported("arithmetic with text")
        return self.to(pre=o + self.pre) if refl else self.to(post=self.post + o)

    def sym_repr(self):
        if self.d.form == "plain" and not self.pre and not self.post:
            return self.to("'", "'")
        raise Unsupported("repr of text")

    def sym_format(self, conv=-1, spec=""):
        if spec:
            raise Unsupported("format")
        return self.sym_repr() if conv == 114 else self

    def encode(self, codec="utf-8", errors="strict"):
        return encoded(self, codec, errors)

    def decode(self, codec="utf-8", errors="strict"):
        if not self.enc:
            raise AttributeError("decode")
        if codec.lower().replace("-", "") != self.enc or errors != "strict":
            raise Unsupported("decoding")
        return DText(self.d, self.pre, self.post)

    def sym_getattr(self, n):
        if n in ("startswith", "encode", "decode") and (n == "decode") == bool(self.enc):
            return getattr(self, n)
        raise Unsupported(f"attribute {n} of the text of a dtype")


def encoded(t, codec="utf-8", errors="strict"):
    if t.enc:
        raise TypeError("encoding without a string argument")
    codec = codec.lower().replace("-", "").replace("_", "")
    if codec != "utf8" and errors == "strict" and t.d.form != "plain" and current().choose(2, "name of a field that is not ASCII"):
        raise UnicodeEncodeError(codec, "", 0, 1, "ordinal not in range")
    if codec not in ("utf8", "ascii") or errors != "strict":
        raise Unsupported("encoding")
    return t.to(enc="utf8")


class Literal(Model):
    def __init__(self, d):
        self.d = d

    def sym_isinstance(self, cls):
        return issubclass({"list": list, "tuple": tuple, "dict": dict}[self.d.form], cls)

    def sym_type(self):
        return {"list": list, "tuple": tuple, "dict": dict}[self.d.form]


def setup(ctx):
    it = ctx.interp

    def literal_eval(t):
        if not isinstance(t, DText):
            return ast.literal_eval(t)
        if t.enc:
            raise ValueError("malformed node or string")
        q = t.pre, t.post
        if t.d.form == "plain":
            if q in (("'", "'"), ('"', '"'), ("'" * 3, "'" * 3), ('"' * 3, '"' * 3)):
                return DText(t.d)
            raise ValueError("malformed node or string")
        if q in (("", ""), ("(", ")")):
            return Literal(t.d)
        if t.pre and t.pre[0] in "'\"":  # holds quotes itself
            raise ValueError("malformed node or string")
        raise Unsupported("literal")

    def dtype(x, *a, **k):
        if a or k:
            raise Unsupported("np.dtype")
        if isinstance(x, D):
            return x
        if isinstance(x, Literal) or isinstance(x, DText) and x.d.form == "plain" and not x.pre and not x.post and not x.enc:
            return x.d
        if isinstance(x, DText):
            raise TypeError("data type not understood")
        if isinstance(x, Model):
            raise Unsupported("np.dtype")
        return np.dtype(x)

    def np_bytes(x=b"", codec=None, errors="strict"):
        if isinstance(x, DText):
            if x.enc and codec is None:
                return x
            if codec is None:
                raise TypeError("string argument without an encoding")
            return encoded(x, codec, errors)
        if isinstance(x, Model):
            raise Unsupported("bytes")
        return np.bytes_(x) if codec is None else np.bytes_(x, codec, errors)

    def to_str(x):
        if isinstance(x, DText):
            return x.decode() if x.enc else x
        raise Unsupported("convert_to_str")

    def evaluated(*a, **k):
        ctx.oblige("the text of a dtype is not evaluated", False)
        raise Unsupported("eval")

    m = it.models
    m[ast.literal_eval], m[np.dtype], m[np.bytes_], m[eval], m[exec] = literal_eval, dtype, np_bytes, evaluated, evaluated
    it.by_name["convert_to_str"] = to_str
    it.by_name["convert_to_numpy_bytes"] = lambda x, *a: np_bytes(x, "utf-8") if isinstance(x, DText) and not x.enc else np_bytes(x)
    it.by_name["convert_attribute_to_string"] = lambda x: x


def run(it, fn, args):
    try:
        return it.run_function(fn, args, {}), None
    except (Unsupported, PathEnd):
        raise
    except Exception as x:  # noqa: BLE001
        return None, x


def round_trip(form):
    def go(ctx):
        from hdf5storage import Marshallers as M

        it = ctx.interp
        setup(ctx)
        cls = M.NumpyDtypeMarshaller
        m = it.instantiate(cls, [], {})
        d = D(form)
        f, grp, name, made = (Opaque(n) for n in ("handle", "Group", "name", "what was made"))
        ts = ctx.pick([None, "numpy.dtype"], "type string given")
        stored = []

        def write(self, f_, grp_, name_, data, type_string=None):
            ctx.oblige("write:the data goes where it was to go", self is m and f_ is f and grp_ is grp and name_ is name)
            stored.append((data, type_string))
            return made

        def read(self, f_, made_, attributes_):
            if self is not m or made_ is not made or not stored:
                raise Unsupported("reading something else")
            return stored[0][0]

        it.by_name["NumpyScalarArrayMarshaller.write"] = write
        it.by_name["NumpyScalarArrayMarshaller.read"] = read
        r, e = run(it, cls.write, [m, f, grp, name, d, ts])
        ctx.oblige("write:no error", e is None, repr(e))
        if e is not None:
            return
        ctx.oblige("write:stored once, and what was made is returned", len(stored) == 1 and r is made)
        if len(stored) != 1:
            return
        data, t = stored[0]
        ctx.oblige("write:NumPy text is handed on", isinstance(data, DText) and data.enc is not None, repr(data))
        ctx.oblige("write:the type string is that of dtypes", t in m.python_type_strings, repr(t))
        if not isinstance(data, DText) or not data.enc:
            return
        y, e = run(it, cls.read, [m, f, made, {"Python.Type": t}])
        ctx.oblige("read:no error", e is None, f"{data!r} {e!r}")
        if e is not None:
            return
        ctx.oblige("read:the dtype that was written", y is d, f"{data!r} {y!r}")
        ctx.cover("read")

    return go


def text(form):
    def go(ctx):
        from hdf5storage import utilities as u

        setup(ctx)
        d = D(form)
        r, e = run(ctx.interp, u.convert_dtype_to_str, [d])
        ctx.oblige("text:no error", e is None, repr(e))
        if e is not None:
            return
        ctx.oblige("text:it is a text", isinstance(r, (str, DText)) and not getattr(r, "enc", None), repr(r))
        if not isinstance(r, DText):
            return
        it = ctx.interp
        try:
            y = it.models[np.dtype](it.models[ast.literal_eval](r))
        except (Unsupported, PathEnd):
            raise
        except Exception as x:  # noqa: BLE001
            y = x
        ctx.oblige("text:its value is an equal dtype", y is d, f"{r!r} {y!r}")
        ctx.cover("text")

    return go


def others(ctx):
    from hdf5storage import utilities as u

    setup(ctx)
    x = ctx.pick([None, 5, "f8", np.float64, b"f8", [("a", "f8")], Opaque("anything else", (object,))], "something else")
    r, e = run(ctx.interp, u.convert_dtype_to_str, [x])
    ctx.oblige("text:only dtypes have one", isinstance(e, TypeError), f"{x!r} {r!r} {e!r}")
    ctx.cover("refused")


def procedures(tier):
    out = [(f"NumpyDtypeMarshaller: {k}", round_trip(k), dict(must_cover={"read"})) for k in FIRST]
    out += [(f"convert_dtype_to_str: {k}", text(k), dict(must_cover={"text"})) for k in FIRST]
    return [*out, ("convert_dtype_to_str: others", others, dict(must_cover={"refused"}))]
