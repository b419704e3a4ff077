"""C07: contracts of the marshallers of Python scalars, strings and singletons.

Each is proved over the contract of NumpyScalarArrayMarshaller (C08): what its
``write`` was given is what its ``read`` gives back, as a scalar of the same
NumPy type with the same bits, except that a string may come back without some
or all of the null characters at its end.  The Attributes read are those that
NumpyScalarArrayMarshaller.write stores: the type string that it was given and
the NumPy type of the data.
"""
import numpy as np
import z3

from pyvc.engine import Model, Opaque, PathEnd, SBool, SInt, Unsupported, current

TRUSTED = [
    "NumpyScalarArrayMarshaller (C08, C15): a scalar is read back with the same NumPy type and bits, whatever the options, except that null characters "
    "at the end of strings may be missing; the Attributes Python.Type and Python.numpy.UnderlyingType are the type string given and the name of the dtype",
    "numpy: int64, bool_, float64, complex128, str_ and bytes_ of Python objects and item() keep value and bits; int64 of an int that does not fit raises OverflowError",
    "int: the decimal form of an int that Python is willing to make (sys.get_int_max_str_digits) reads back as that int",
    "convert_to_str and convert_attribute_to_string give the text (C10)",
    "a marshaller is found again by its type strings (C05)",
]


def truth(e):
    return current().interp.truth(SBool(e) if not isinstance(e, bool) else e)


class Num(Model):
    """A float or complex number, or what is left of it; known by its bits."""

    def __init__(self, tp, bits):
        self.tp, self.bits = tp, bits

    def __repr__(self):
        return f"<{self.tp.__name__} with {self.bits}>"

    def sym_isinstance(self, cls):
        return issubclass(self.tp, cls)

    def sym_type(self):
        return self.tp

    def sym_float(self):
        if issubclass(self.tp, (complex, np.complexfloating)):
            raise TypeError("can't convert complex to float")
        return Num(float, self.bits if "float64" in self.bits or self.tp in (float, np.float64) else f"rounded {self.bits}")

    @property
    def real(self):
        return Num({complex: float, np.complex128: np.float64}.get(self.tp, self.tp), f"real part of {self.bits}" if self.tp in (complex, np.complex128) else self.bits)

    @property
    def imag(self):
        return Num({complex: float, np.complex128: np.float64}.get(self.tp, self.tp), f"imaginary part of {self.bits}")

    def item(self):
        return Num({np.float64: float, np.complex128: complex, np.float32: float, np.complex64: complex}[self.tp], self.bits)

    def sym_eq(self, o):
        raise Unsupported("comparison of numbers")


class NpInt(Model):
    def __init__(self, tp, e):
        self.tp, self.e = tp, e

    def __repr__(self):
        return f"<{self.tp.__name__} {self.e}>"

    def sym_isinstance(self, cls):
        return issubclass(self.tp, cls)

    def sym_type(self):
        return self.tp

    def item(self):
        return SInt(self.e)

    def sym_int(self):
        return SInt(self.e)


class Text(Model):
    """The text of something: str, bytes, bytearray or a NumPy string.  It is
    what comes before the null characters at the end, and how many of all.  An
    int has a decimal form, with no nulls."""

    def __init__(self, tp, core, ncore, n, dec=None):
        self.tp, self.core, self.ncore, self.n, self.dec = tp, core, ncore, n, dec

    def __repr__(self):
        return f"<{self.tp.__name__} {self.core} of length {z3.simplify(self.n)}>"

    @property
    def wide(self):
        return issubclass(self.tp, str)

    def to(self, tp):
        return Text(tp, self.core, self.ncore, self.n, self.dec)

    def sym_isinstance(self, cls):
        return issubclass(self.tp, cls)

    def sym_type(self):
        return self.tp

    def sym_len(self):
        return SInt(self.n)

    def sym_bool(self):
        return truth(self.n > 0)

    def plain(self):
        return str if self.wide else bytearray if self.tp is bytearray else bytes

    def ljust(self, k, fill=None):
        fill = (" " if self.wide else b" ") if fill is None else fill
        if not isinstance(fill, str if self.wide else (bytes, bytearray)):
            raise TypeError("fill")
        k = k.e if isinstance(k, SInt) else z3.IntVal(k)
        if fill in ("\x00", b"\x00"):
            return Text(self.plain(), self.core, self.ncore, z3.If(k > self.n, k, self.n))
        if not truth(k > self.n):
            return self.to(self.plain())
        return Text(self.plain(), f"padded {self.core}", k, k)

    def rstrip(self, c=None):
        if c in ("\x00", b"\x00"):
            return Text(self.plain(), self.core, self.ncore, self.ncore)
        raise Unsupported("strip")

    def sym_binop(self, op, o, refl):
        raise Unsupported("arithmetic with texts")

    def item(self):
        if self.tp not in (np.str_, np.bytes_):
            raise AttributeError("item")
        return self.to(str if self.wide else bytes)

    tobytes_ok = False

    def sym_str(self, *a, **k):
        if not self.wide:
            if a and a[0].lower().replace("-", "") in ("utf8", "ascii") and self.dec is not None:
                return self.to(str)
            raise Unsupported("text of bytes")
        return self.to(str)

    def sym_bytes(self, *a, **k):
        if self.wide:
            raise TypeError("string argument without an encoding")
        return self.to(bytes)

    def sym_int(self):
        if self.dec is None:
            raise ValueError("invalid literal")
        return SInt(self.dec)


class Under(Model):
    """The name of the dtype of a string: a prefix and the bits, if any."""

    def __init__(self, prefix, bits):
        self.prefix, self.bits = prefix, bits

    def __repr__(self):
        return f"<{self.prefix}{z3.simplify(self.bits)}>"

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_type(self):
        return str

    def empty(self):
        return not truth(self.bits > 0)

    def sym_bool(self):
        return bool(self.prefix) or not self.empty()

    def sym_eq(self, o):
        if not isinstance(o, str):
            return False
        if self.empty():
            return self.prefix == o
        if o.rstrip("0123456789") != self.prefix:
            return False
        d = o[len(self.prefix):]
        return bool(d) and d[0] != "0" and SBool(self.bits == int(d))

    def startswith(self, p):
        if self.prefix.startswith(p):
            return True
        if not p.startswith(self.prefix):
            return False
        raise Unsupported("start of the name of a dtype")

    def endswith(self, p):
        raise Unsupported("end of the name of a dtype")

    def lstrip(self, chars=None):
        chars = " \t\n\r\v\f" if chars is None else chars
        if any(c.isdigit() for c in chars):
            raise Unsupported("stripping digits")
        return Under(self.prefix.lstrip(chars), self.bits)

    def strip(self, chars=None):
        return self.lstrip(chars)

    def rstrip(self, chars=None):
        if chars is not None and set("0123456789") <= set(chars):
            return self.prefix.rstrip(chars)
        raise Unsupported("rstrip")

    def removeprefix(self, p):
        return Under(self.prefix[len(p):], self.bits) if self.prefix.startswith(p) else self

    def replace(self, a, b):
        if any(c.isdigit() for c in a):
            raise Unsupported("replacing digits")
        return Under(self.prefix.replace(a, b), self.bits)

    def isdigit(self):
        return not self.prefix and not self.empty()

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        if self.prefix:
            return self.prefix.isalpha() and self.empty()
        return False

    def sym_getitem(self, i):
        if self.empty():
            return self.prefix[i]
        if isinstance(i, slice) and i.step is None:
            if i.stop is None and isinstance(i.start, int) and 0 <= i.start <= len(self.prefix):
                return Under(self.prefix[i.start:], self.bits)
            if i.start == -1 and i.stop is None:
                return Digit()
            if i.stop is not None and i.stop >= 0 and i.stop <= len(self.prefix) and (i.start or 0) >= 0:
                return self.prefix[i]
        elif i == -1:
            return Digit()
        elif isinstance(i, int) and 0 <= i < len(self.prefix):
            return self.prefix[i]
        raise Unsupported("part of the name of a dtype")

    def sym_int(self):
        if self.prefix or self.empty():
            raise ValueError("invalid literal for int()")
        return SInt(self.bits)


class Digit(Model):
    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def isdigit(self):
        return True

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return False

    def sym_bool(self):
        return True


class Zero(Model):
    """An array of no dimensions holding a scalar."""

    def __init__(self, x):
        self.x = x

    def sym_getitem(self, i):
        if i == ():
            return self.x
        raise IndexError("too many indices")

    def item(self):
        return self.x.item()


def scalar(x):
    """The NumPy scalar that holds a Python value."""
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, SInt):
        if truth(z3.And(x.e >= -2**63, x.e < 2**63)):
            return NpInt(np.int64, x.e)
        if truth(z3.And(x.e >= 0, x.e < 2**64)):
            return NpInt(np.uint64, x.e)
        raise Unsupported("an array holding an object")
    if isinstance(x, Num):
        return Num({float: np.float64, complex: np.complex128}.get(x.tp, x.tp), x.bits)
    if isinstance(x, Text):
        # numpy drops the null characters of Python strings
        if x.tp in (str, bytes):
            return Text(np.str_ if x.wide else np.bytes_, x.core, x.ncore, x.ncore, x.dec)
        return x
    raise Unsupported(f"array of {x!r}")


def integer(tp, lo, hi):
    def go(x=0):
        if isinstance(x, (SInt, NpInt)):
            if not truth(z3.And(x.e >= lo, x.e < hi)):
                if lo == 0:
                    raise Unsupported("an unsigned integer out of bounds")
                raise OverflowError("Python int too large to convert to C long")
            return NpInt(tp, x.e)
        if isinstance(x, (Model, type(None))):
            raise Unsupported("integer of something else")
        return tp(x)

    return go


def number(tp, exact):
    def go(x=0.0):
        if isinstance(x, Num):
            if issubclass(x.tp, (complex, np.complexfloating)) and not issubclass(tp, np.complexfloating):
                raise TypeError("can't convert complex to float")
            return Num(tp, x.bits if x.tp in exact else f"{x.bits} as {tp.__name__}")
        if isinstance(x, SInt):
            return Num(tp, f"{x.e} as {tp.__name__}")
        return tp(x)

    return go


def np_bytes(x=b"", *a):
    if isinstance(x, SInt):
        # b'%d' of it: its length is not needed
        n = current().int("digits")
        current().assume(n.e > 0)
        return Text(np.bytes_, f"decimal form of {x.e}", n.e, n.e, x.e)
    if isinstance(x, Text):
        if x.wide:
            if not a:
                raise TypeError("string argument without an encoding")
            raise Unsupported("encoding of a text")
        return x.to(np.bytes_)
    if isinstance(x, Model):
        raise Unsupported("bytes of it")
    return np.bytes_(x, *a)


def np_str(x="", *a):
    if isinstance(x, Text) and x.wide:
        return x.to(np.str_)
    if isinstance(x, Model):
        raise Unsupported("str_ of it")
    return np.str_(x, *a)


def complex_(*a):
    if len(a) == 1 and isinstance(a[0], Num):
        x = a[0]
        if x.tp in (complex, np.complex128):
            return Num(complex, x.bits)
        return Num(complex, f"{x.bits} as complex")
    if len(a) == 2 and all(isinstance(x, Num) for x in a):
        r, i = (x.bits for x in a)
        if r.startswith("real part of ") and i == "imaginary part of " + r[len("real part of "):]:
            # x + i*y computed by Python: exact if made of two floats
            return Num(complex, r[len("real part of "):])
        return Num(complex, f"({r}, {i})")
    if any(isinstance(x, Model) for x in a):
        raise Unsupported("complex")
    return complex(*a)


def bytearray_(*a):
    if len(a) == 1 and isinstance(a[0], Text):
        if a[0].wide:
            raise TypeError("string argument without an encoding")
        return a[0].to(bytearray)
    if any(isinstance(x, Model) for x in a):
        raise Unsupported("bytearray")
    return bytearray(*a)


class Attribute(Model):
    def __init__(self, text):
        self.text = text

    def sym_is(self, o):
        return self is o


class Attributes(Model):
    """What has been read of the Attributes; those not there are None."""

    def __init__(self, tab):
        self.tab = tab

    def sym_getitem(self, k):
        if k not in self.tab:
            raise Unsupported(f"Attribute {k}")
        return self.tab[k]

    def get(self, k, d=None):
        return self.sym_getitem(k)

    def sym_contains(self, k):
        return self.sym_getitem(k) is not None


def setup(ctx):
    it = ctx.interp
    m = it.models
    m[np.int64] = m[np.intp] = m[np.int_] = integer(np.int64, -2**63, 2**63)
    m[np.int32] = integer(np.int32, -2**31, 2**31)
    m[np.uint64] = integer(np.uint64, 0, 2**64)
    m[np.float64] = number(np.float64, (float, np.float64))
    m[np.complex128] = number(np.complex128, (complex, np.complex128))
    m[np.float32] = number(np.float32, ())
    m[np.complex64] = number(np.complex64, ())
    m[np.bool_] = np.bool_
    m[np.bytes_] = np_bytes
    m[np.str_] = np_str
    m[complex] = complex_
    m[bytearray] = bytearray_

    def array(x, *a, **k):
        if a or k:
            raise Unsupported("array of a given kind")
        if isinstance(x, (Model, SInt, bool)):
            return Zero(scalar(x))
        return np.array(x)

    m[np.array] = m[np.asarray] = array

    def to_text(x, *a):
        if isinstance(x, Text) and x.wide:
            return x.to(str)
        if isinstance(x, Text) and x.dec is not None:
            return x.to(str)
        raise Unsupported("text of something else")

    def attr_text(x):
        if x is None:
            return None
        if not isinstance(x, Attribute):
            raise Unsupported("text of something else")
        return x.text

    it.by_name["convert_to_str"] = to_text
    it.by_name["convert_attribute_to_string"] = attr_text


KINDS = {
    "bool": "PythonScalarMarshaller", "int": "PythonScalarMarshaller", "float": "PythonScalarMarshaller", "complex": "PythonScalarMarshaller",
    "str": "PythonStringMarshaller", "bytes": "PythonStringMarshaller", "bytearray": "PythonStringMarshaller",
    "None": "PythonNoneEllipsisNotImplementedMarshaller", "Ellipsis": "PythonNoneEllipsisNotImplementedMarshaller",
    "NotImplemented": "PythonNoneEllipsisNotImplementedMarshaller",
}
STRINGS = {"int": ("int", "long")}


def value(ctx, kind):
    if kind == "bool":
        return ctx.choose(2, "truth") == 1
    if kind == "int":
        return ctx.int("number")
    if kind in ("float", "complex"):
        return Num({"float": float, "complex": complex}[kind], "bits")
    if kind in ("str", "bytes", "bytearray"):
        n, c = ctx.int("length"), ctx.int("length without nulls")
        ctx.assume(z3.And(c.e >= 0, n.e >= c.e))
        return Text({"str": str, "bytes": bytes, "bytearray": bytearray}[kind], "text", c.e, n.e)
    return {"None": None, "Ellipsis": ..., "NotImplemented": NotImplemented}[kind]


def under(x):
    """The name of the dtype of NumPy data."""
    if isinstance(x, Text):
        return Under("str" if x.wide else "bytes", z3.simplify(x.n * (32 if x.wide else 8)))
    if isinstance(x, (Num, NpInt)):
        return np.dtype(x.tp).name
    return x.dtype.name


def back(ctx, x):
    """What NumpyScalarArrayMarshaller.read gives back of it."""
    if isinstance(x, Text):
        k = ctx.int("length read")
        ctx.assume(z3.And(k.e >= x.ncore, k.e <= x.n))
        return Text(x.tp, x.core, x.ncore, k.e, x.dec)
    return x


def same(ctx, a, b):
    """The value and type read are those written."""
    if isinstance(a, SInt):
        return isinstance(b, SInt) and a.e == b.e
    if isinstance(a, Num):
        return isinstance(b, Num) and a.tp is b.tp and a.bits == b.bits
    if isinstance(a, Text):
        return isinstance(b, Text) and a.tp is b.tp and a.core == b.core and a.n == b.n
    return type(a) is type(b) and a is b


def run(it, fn, args):
    try:
        return it.run_function(fn, args, {}), None
    except (Unsupported, PathEnd):
        raise
    except Exception as x:  # noqa: BLE001
        return None, x


def round_trip(kind):
    def go(ctx):
        from hdf5storage import Marshallers as M

        it = ctx.interp
        setup(ctx)
        cls = getattr(M, KINDS[kind])
        m = it.instantiate(cls, [], {})
        x = value(ctx, kind)
        f, grp, name, made = (Opaque(n) for n in ("handle", "Group", "name", "what was made"))
        ts = ctx.pick([None, *STRINGS.get(kind, (kind if kind in ("bool", "float", "complex", "str", "bytes", "bytearray") else "builtins." + type(x).__name__,))], "type string given")
        stored = []

        def write(self, f_, grp_, name_, data, type_string=None):
            ctx.oblige("write:the data goes where it was to go", self is m and f_ is f and grp_ is grp and name_ is name)
            stored.append((data, type_string))
            return made

        def read(self, f_, made_, attributes_):
            if self is not m or made_ is not made or not stored:
                raise Unsupported("reading something else")
            return back(ctx, stored[0][0])

        it.by_name["NumpyScalarArrayMarshaller.write"] = write
        it.by_name["NumpyScalarArrayMarshaller.read"] = read
        r, e = run(it, cls.write, [m, f, grp, name, x, ts])
        ctx.oblige("write:no error", e is None, repr(e))
        if e is not None:
            return
        ctx.oblige("write:stored once", len(stored) == 1)
        ctx.oblige("write:what was made is returned", r is made)
        if len(stored) != 1:
            return
        data, t = stored[0]
        ok = isinstance(data, (Text, Num, NpInt, np.generic, np.ndarray)) and not (isinstance(data, Text) and data.tp not in (np.str_, np.bytes_)) and not (isinstance(data, Num) and data.tp in (float, complex))
        ctx.oblige("write:NumPy data is handed on", ok, repr(data))
        ctx.oblige("write:the type string is the one given, or one of the type", t == ts if ts is not None else t in m.python_type_strings, repr(t))
        if not ok:
            return
        attrs = Attributes({"Python.Type": Attribute(t), "Python.numpy.UnderlyingType": Attribute(under(data)), "Python.numpy.Container": Attribute("scalar"), "Python.Fields": None})
        y, e = run(it, cls.read, [m, f, made, attrs])
        ctx.oblige("read:no error", e is None, repr(e))
        if e is not None:
            return
        ctx.oblige("read:the same value of the same type", same(ctx, x, y), f"{x!r} {data!r} {y!r}")
        ctx.cover("read")

    return go


def procedures(tier):
    return [(f"{KINDS[k]}: {k}", round_trip(k), dict(must_cover={"read"})) for k in KINDS]
