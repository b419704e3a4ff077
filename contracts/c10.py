"""C10: contracts of the conversions between text and code units.

Encoding: the units are those of the text in its order, in native byte order,
whatever the shape, memory layout and byte order of the text.  Decoding: every
item read is the text of its own group of units, for units of any shape,
layout and byte order.  That decoding undoes encoding is the composition.

An array is told by what its elements are in C order (``el``), its shape (of
any number of dimensions), whether its memory is in C order, and whether its
byte order is the native one.
"""
import copy
import sys

import numpy as np

from pyvc.engine import z3, FocusSeq, Idx, Model, Opaque, PathEnd, SBool, SInt, Sym, Unsupported, current

TRUSTED = [
    "numpy: char.encode/decode apply the codec to every item; tobytes and ravel are in C order; view and ndarray(buffer) reinterpret memory and refuse memory of "
    "another size or (ndarray(buffer)) another order; array, asarray, ascontiguousarray, zeros, reshape, slices, ndenumerate, prod as documented",
    "Python's codecs: UTF-8, UTF-16 and UTF-32 decode what they encoded; without an error handler they refuse surrogates, with surrogatepass UTF-32 keeps them; "
    "UTF-8 takes at most 4 bytes for each character",
    "the machine is little endian (the code asks sys.byteorder)",
]
NATIVE = "LE" if sys.byteorder == "little" else "BE"


def truth(e):
    return current().interp.truth(SBool(e) if not isinstance(e, bool) else e)


def ex(x):
    return x.e if isinstance(x, Sym) else z3.IntVal(int(x))


class Prefix:
    """The lengths of all dimensions but the last, of which there is at least one."""

    def __init__(self, c):
        self.count = c.int("items before the last dimension").e
        self.ndim = c.int("number of dimensions").e
        c.assume(self.count >= 0)
        c.assume(self.ndim >= 2)


class Shp(Model):
    """A shape of two or more dimensions; as a list where ``mutable``."""

    def __init__(self, prefix, last, mutable=False):
        self.prefix, self.last, self.mutable = prefix, last, mutable

    def __repr__(self):
        return f"<shape (..., {self.last!r})>"

    def sym_isinstance(self, cls):
        return issubclass(list if self.mutable else tuple, cls)

    def sym_type(self):
        return list if self.mutable else tuple

    def sym_bool(self):
        return True

    def sym_len(self):
        return SInt(self.prefix.ndim)

    def sym_getitem(self, i):
        if i == -1:
            return self.last
        raise Unsupported("part of a shape")

    def sym_setitem(self, i, v):
        if not self.mutable:
            raise TypeError("'tuple' object does not support item assignment")
        if i != -1:
            raise Unsupported("part of a shape")
        self.last = v

    def sym_tuple(self):
        return Shp(self.prefix, self.last)

    def sym_list(self):
        return Shp(self.prefix, self.last, True)

    def copy(self):
        return Shp(self.prefix, self.last, self.mutable)

    def sym_getattr(self, n):
        if n == "copy":
            return self.copy
        raise Unsupported(f"attribute {n} of a shape")

    def sym_iter(self):
        raise Unsupported("iteration of a shape")


class Count(Model):
    """How many elements a shape has."""

    def __init__(self, prefix, last):
        self.prefix, self.last = prefix, last

    def sym_isinstance(self, cls):
        return issubclass(int, cls)

    def sym_int(self):
        return self

    def sym_binop(self, op, o, refl):
        if op == "FloorDiv" and not refl and isinstance(o, (SInt, int)):
            a, b = ex(self.last), ex(o)
            if current().must(z3.And(b > 0, a % b == 0)):
                return Count(self.prefix, SInt(a / b))
        raise Unsupported("arithmetic with a number of elements")


def total(s):
    if isinstance(s, Shp):
        return Count(s.prefix, s.last)
    n = list(s)
    if len(n) > 1:
        raise Unsupported("shape")
    return n[0] if n else 1


def equal(a, b):
    """Equality of lengths or numbers of elements."""
    if isinstance(a, Count) and b.__class__ is int and b == 0:
        return truth(z3.Or(a.prefix.count == 0, ex(a.last) == 0))
    if isinstance(b, Count) and a.__class__ is int:
        return equal(b, a)
    if isinstance(a, Count) or isinstance(b, Count):
        return isinstance(a, Count) and isinstance(b, Count) and a.prefix is b.prefix and equal(a.last, b.last)
    return truth(ex(a) == ex(b))


def some(shape):
    """Is there an element?"""
    if isinstance(shape, Shp):
        return truth(z3.And(shape.prefix.count > 0, ex(shape.last) > 0))
    return not shape or not equal(total(shape), 0)


def same_shape(a, b):
    if isinstance(a, Shp) and isinstance(b, Shp):
        return a.prefix is b.prefix and SBool(ex(a.last) == ex(b.last))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b) <= 1:
        if not a:
            return True
        if isinstance(a[0], Count) or isinstance(b[0], Count):
            return equal(a[0], b[0])
        return SBool(ex(a[0]) == ex(b[0]))
    return False


BITS = {"u8": 8, "u16": 16, "u32": 32}
TYPES = {"u8": np.uint8, "u16": np.uint16, "u32": np.uint32, "U": np.str_, "S": np.bytes_}
KINDS = {"uint8": "u8", "uint16": "u16", "uint32": "u32"}


class Dt(Model):
    def __init__(self, kind, native, chars=None):
        self.kind, self.native, self.chars = kind, native, chars

    def __repr__(self):
        return f"<{self.kind} {self.chars}>"

    def sym_isinstance(self, cls):
        return cls in (np.dtype, object)

    def sym_eq(self, o):
        if isinstance(o, Dt):
            if o.kind != self.kind:
                return False
            raise Unsupported("comparison of dtypes")
        if self.kind in BITS and isinstance(o, (str, type, np.dtype)):
            return np.dtype(TYPES[self.kind]) == np.dtype(o) and self.is_native()
        raise Unsupported("comparison of dtypes")

    def is_native(self):
        return self.kind in ("u8", "S") or self.native if isinstance(self.native, bool) else self.native

    def sym_str(self):
        raise Unsupported("text of a dtype")

    def sym_getattr(self, n):
        if n == "type":
            return TYPES[self.kind]
        if n == "name" and self.kind in BITS:
            return np.dtype(TYPES[self.kind]).name
        if n == "name":
            return {"U": "str", "S": "bytes"}[self.kind] + "128"  # compared with those of integers only
        if n in ("kind", "char"):
            return np.dtype(TYPES[self.kind]).char if n == "char" else np.dtype(TYPES[self.kind]).kind
        if n == "itemsize":
            return BITS[self.kind] // 8 if self.kind in BITS else SInt(ex(self.chars) * (4 if self.kind == "U" else 1))
        if n == "byteorder":
            if self.kind in ("u8", "S"):
                return "|"
            return "=" if truth(self.native if isinstance(self.native, bool) else self.native.e) else (">" if NATIVE == "LE" else "<")
        if n == "isnative":
            return True if self.kind in ("u8", "S") else self.native
        if n == "newbyteorder":
            return self.newbyteorder
        raise Unsupported(f"attribute {n} of a dtype")

    def newbyteorder(self, o="S"):
        if o in ("=", "N", "n", "native"):
            return Dt(self.kind, True, self.chars)
        if o in ("<", "L", "little", ">", "B", "big"):
            return Dt(self.kind, (o in ("<", "L", "little")) == (NATIVE == "LE"), self.chars)
        raise Unsupported("newbyteorder")


def native(d):
    return d.kind in ("u8", "S") or (d.native if isinstance(d.native, bool) else truth(d.native.e))


class DtName(Model):
    """'U' or 'S' and a number."""

    def __init__(self, kind, n):
        self.kind, self.n = kind, n

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_binop(self, op, o, refl):
        if op == "Add" and refl and o in ("U", "S", "=U", "|S") and self.kind == "":
            return DtName(o[-1], self.n)
        raise Unsupported("text")


class Text(Model):
    """What a group of units, or an item of text, says."""

    def __init__(self, src, nulls=True):
        self.src, self.nulls = src, nulls

    def __repr__(self):
        return f"<text of {self.src}>"

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_type(self):
        return str

    def sym_len(self):
        n = current().int("characters").e
        current().assume(n >= 0)
        return SInt(n)

    def encode(self, codec="utf-8", errors="strict"):
        c = norm(codec)
        if errors not in ("strict",) or c != "utf8":
            return Bytes(("encoded", self.src, c, errors))
        if current().choose(2, "surrogates"):
            raise UnicodeEncodeError("utf-8", "", 0, 1, "surrogates not allowed")
        return Bytes(("utf8", self.src))

    def sym_getattr(self, n):
        if n == "encode":
            return self.encode
        raise Unsupported(f"attribute {n} of a text")


def norm(codec):
    return codec.lower().replace("-", "").replace("_", "")


class Bytes(Model):
    """Bytes: ('utf8', what) or ('memory', what, width, order)."""

    def __init__(self, src):
        self.src, self.n = src, None

    def __repr__(self):
        return f"<bytes of {self.src}>"

    def sym_isinstance(self, cls):
        return issubclass(bytes, cls)

    def sym_type(self):
        return bytes

    def sym_len(self):
        if self.n is None:
            self.n = SInt(current().int("bytes").e)
            current().assume(self.n.e >= 0)
        return self.n

    def decode(self, codec="utf-8", errors="strict"):
        c = norm(codec)
        if self.src[0] != "memory":
            if c == "utf8" and errors == "strict":
                return Text(self.src[1]) if self.src[0] == "utf8" else Text(("bytes", self.src[1]))
            return Text(("misread", self.src, codec))
        _, what, width, order = self.src
        want = {8: "utf8", 16: "utf16" + order.lower(), 32: "utf32" + order.lower()}[width]
        ok = c == want or width == 16 and c == "utf16" and False
        if not ok or errors != ("surrogatepass" if width == 32 else "strict"):
            return Text(("misread", what, codec, errors))
        if current().choose(2, "not a text"):
            raise UnicodeDecodeError(codec, b"", 0, 1, "invalid")
        return Text(what)

    def sym_getattr(self, n):
        if n == "decode":
            return self.decode
        raise Unsupported(f"attribute {n} of bytes")


class Arr(Model):
    def __init__(self, w, dt, shape, el, contiguous, pytype=np.ndarray):
        self.w, self.dt, self.shape_, self.el, self.contiguous, self.pytype = w, dt, shape, el, contiguous, pytype
        self.fills = []

    def __repr__(self):
        return f"<{self.pytype.__name__} {self.dt} {self.shape_} {self.el} {self.fills}>"

    def sym_isinstance(self, cls):
        return issubclass(self.pytype, cls)

    def sym_type(self):
        return self.pytype

    def like(self, **k):
        r = Arr(self.w, k.get("dt", self.dt), k.get("shape", self.shape_), k.get("el", self.el), k.get("contiguous", self.contiguous), k.get("pytype", self.pytype))
        r.fills = self.fills
        return r

    @property
    def scalar(self):
        return not issubclass(self.pytype, np.ndarray)

    def sym_getattr(self, n):
        if n == "dtype":
            return self.dt
        if n == "shape":
            return self.shape_
        if n == "ndim":
            return len(self.shape_) if isinstance(self.shape_, tuple) else self.shape_.sym_len()
        if n == "itemsize":
            return self.dt.sym_getattr("itemsize")
        if n in ("size", "nbytes"):
            return self.size(n)
        if n == "data" and self.scalar:
            return Buffer(self)
        if n in ("tobytes", "ravel", "view", "reshape", "decode", "encode", "copy", "flatten", "astype"):
            if n in ("decode", "encode") and not self.scalar:
                raise AttributeError(n)
            return getattr(self, n)
        raise Unsupported(f"attribute {n} of an array")

    def size(self, n):
        t = total(self.shape_)
        if n == "size":
            if isinstance(t, Count):
                raise Unsupported("size of an array")
            return t
        x = current().int("nbytes").e
        current().assume(x >= 0)
        last = ex(self.shape_[-1] if isinstance(self.shape_, tuple) and self.shape_ else self.shape_.last if isinstance(self.shape_, Shp) else 1)
        rest = self.shape_.prefix.count if isinstance(self.shape_, Shp) else z3.IntVal(1)
        current().assume((x == 0) == z3.Or(last == 0, rest == 0, ex(self.dt.sym_getattr("itemsize")) == 0))
        return SInt(x)

    def order(self):
        return "LE" if native(self.dt) == (NATIVE == "LE") else "BE"

    def width(self):
        return BITS.get(self.dt.kind, {"U": 32, "S": 8}.get(self.dt.kind))

    def what(self):
        """The units in C order."""
        return self.el

    def tobytes(self, order="C"):
        if order != "C":
            if self.fills or not current().must(self.contiguous):
                return Bytes(("memory", ("misordered", self.el), self.width(), self.order()))
        return Bytes(("memory", self.el, self.width(), self.order()))

    def ravel(self, order="C"):
        if order != "C":
            raise Unsupported("ravel")
        return self.like(shape=(total(self.shape_),), contiguous=True, pytype=np.ndarray)

    def flatten(self, order="C"):
        return self.ravel(order)

    def copy(self, order="C"):
        return self.like(contiguous=order == "C" or self.contiguous)

    def astype(self, dt, **k):
        r = self.w.array(self, dt)
        return r

    def reshape(self, *s):
        s = s[0] if len(s) == 1 else s
        if isinstance(s, tuple) and len(s) == 2 and isinstance(s[0], int) and s[0] == -1:
            return Chunks(self, s[1])
        if isinstance(s, list):
            s = tuple(s)
        if isinstance(s, int) or isinstance(s, Sym):
            s = (s,)
        if not isinstance(s, (tuple, Shp)):
            raise Unsupported("reshape")
        if isinstance(s, tuple) and len(s) == 1 and s[0].__class__ is int and s[0] == -1:
            return self.ravel()
        s = s.sym_tuple() if isinstance(s, Shp) else s
        if not equal(total(s), total(self.shape_)):
            raise ValueError("cannot reshape array")
        return self.like(shape=s, contiguous=self.w.fresh("contiguous") if not current().must(self.contiguous) else True)

    def view(self, dt):
        s = self.shape_
        if isinstance(dt, DtName) and dt.kind == "U" or isinstance(dt, type) and issubclass(dt, np.uint32) and self.dt.kind == "U" or dt in ("uint32", "u4"):
            if not s:
                raise Unsupported("view of a scalar")
            if not current().must(self.contiguous):
                raise ValueError("To change to a dtype of a different size, the last axis must be contiguous")
            el = self.el if native(self.dt) else ("byte swapped", self.el)
            last = s[-1] if isinstance(s, tuple) else s.last
            if isinstance(last, Count):
                new = None
            if self.dt.kind == "U":
                if isinstance(dt, DtName):
                    raise Unsupported("view of text")
                new = Count(last.prefix, SInt(ex(last.last) * ex(self.dt.chars))) if isinstance(last, Count) else SInt(ex(last) * ex(self.dt.chars))
                d = Dt("u32", True)
                el = ("units", "utf32", el)
            else:
                if self.dt.kind != "u32":
                    return self.like(dt=Dt("U", True, dt.n), el=("reinterpreted", el))
                if not truth(z3.And(ex(dt.n) > 0, ex(last) % ex(dt.n) == 0)):
                    raise ValueError("When changing to a larger dtype, its size must be a divisor of the total size in bytes")
                new = SInt(ex(last) / ex(dt.n))
                d = Dt("U", True, dt.n)
                el = ("groups", el, dt.n)
            return self.like(dt=d, el=el, shape=(new,) if isinstance(s, tuple) else Shp(s.prefix, new))
        raise Unsupported("view")

    def sym_getitem(self, i):
        if i == () and self.shape_ == ():
            return self.like(pytype=TYPES[self.dt.kind])
        if isinstance(i, slice) and isinstance(i.start, Place) and isinstance(i.stop, Place) and i.step is None and isinstance(self.shape_, tuple) and len(self.shape_) == 1:
            a, b = i.start, i.stop
            if a.i is not b.i or a.shift != 0 or b.shift != 1 or not truth(ex(a.k) == ex(b.k)):
                return Arr(self.w, self.dt, (SInt(ex(a.k)),), ("misplaced", self.el, a.k, a.i), True)
            return Arr(self.w, self.dt, (SInt(ex(a.k)),), ("group", self.el, a.k, a.i), True)
        if i.__class__ is int and i == 0 and isinstance(self.shape_, tuple) and len(self.shape_) == 1 and truth(ex(self.shape_[0]) == 1):
            return self.like(shape=(), pytype=TYPES[self.dt.kind])
        raise Unsupported("part of an array")

    def sym_setitem(self, i, v):
        if self.el != ("zeros",):
            raise Unsupported("assignment to elements")
        self.fills.append((i, v))

    def sym_len(self):
        if self.scalar and self.dt.kind in "US":
            return self.dt.chars
        raise Unsupported("length of an array")

    def encode(self, codec="utf-8", errors="strict"):
        if self.dt.kind != "U":
            raise AttributeError("encode")
        return Text(self.el).encode(codec, errors)

    def decode(self, codec="utf-8", errors="strict"):
        if self.dt.kind != "S":
            raise AttributeError("decode")
        return Bytes(("memory", self.el, 8, "LE")).decode(codec, errors)

    def sym_compare(self, op, a, b):
        raise Unsupported("comparison of elements")


class Buffer(Model):
    def __init__(self, a):
        self.a = a


class Chunks(FocusSeq):
    """Rows of ``k`` units."""

    def __init__(self, a, k):
        if not truth(ex(k) > 0):
            raise ValueError("cannot reshape array")
        self.a, self.k = a, k
        g = Arr(a.w, a.dt, (SInt(ex(k)),), ("group", a.el, k, None), True)
        g.el = ("group", a.el, k, g)
        super().__init__([(True, g)] if some(a.shape_) else [])


class Counter(Model):
    """An arbitrary number of range(n)."""

    def sym_isinstance(self, cls):
        return issubclass(int, cls)

    def sym_binop(self, op, o, refl):
        if op == "Mult" and isinstance(o, (SInt, int)):
            return Place(self, o, 0)
        if op == "Add" and isinstance(o, int):
            return Later(self, o)
        raise Unsupported("arithmetic with an index")


class Later(Model):
    def __init__(self, i, d):
        self.i, self.d = i, d

    def sym_binop(self, op, o, refl):
        if op == "Mult" and isinstance(o, (SInt, int)):
            return Place(self.i, o, self.d)
        raise Unsupported("arithmetic with an index")


class Place(Model):
    """(i + shift) * k"""

    def __init__(self, i, k, shift):
        self.i, self.k, self.shift = i, k, shift

    def sym_binop(self, op, o, refl):
        if op == "Add" and isinstance(o, (SInt, int)) and truth(ex(o) == ex(self.k)):
            return Place(self.i, self.k, self.shift + 1)
        raise Unsupported("arithmetic with an index")


class Longest(Model):
    """The largest of some numbers."""

    def __init__(self, over):
        self.over = over

    def covers(self, n):
        return any(x is n for _, x in self.over.elems)

    def sym_isinstance(self, cls):
        return issubclass(int, cls)


class World:
    def __init__(self, ctx):
        self.ctx, self.it = ctx, ctx.interp
        m, b = self.it.models, self.it.by_name
        self.swapped = False

        def isarr(a):
            if not isinstance(a, Arr):
                raise Unsupported("array")
            return a

        def atleast_1d(a):
            a = isarr(a)
            if a.shape_ == ():
                if a.scalar and a.dt.kind in "US":
                    return a.like(shape=(1,), pytype=np.ndarray, contiguous=True, dt=Dt(a.dt.kind, a.dt.native, self.dropped(a.dt.chars)))
                return a.like(shape=(1,), pytype=np.ndarray if a.scalar else a.pytype, contiguous=True)
            return a

        def char_encode(a, codec="ascii", errors="strict"):
            a = isarr(a)
            if a.dt.kind != "U":
                raise TypeError("string operation on non-string array")
            c = norm(codec)
            if c != "utf32" + NATIVE.lower() and errors == "strict" and ctx.choose(2, "surrogates"):
                raise UnicodeEncodeError(codec, "", 0, 1, "surrogates not allowed")
            k = ctx.int("bytes for each item").e
            per = {"utf16le": 2, "utf16be": 2, "utf32le": 4, "utf32be": 4}.get(c, 1)
            ctx.assume(k >= 0)
            ctx.assume(k % per == 0)
            el = ("encoded", c, errors, a.el)
            return Arr(self, Dt("S", True, SInt(k)), a.shape_, el, True)

        def char_decode(a, codec="ascii", errors="strict"):
            a = isarr(a)
            if a.dt.kind != "S":
                raise TypeError("string operation on non-string array")
            if ctx.choose(2, "not a text"):
                raise UnicodeDecodeError(codec, b"", 0, 1, "invalid")
            ok = norm(codec) == "utf8" and errors == "strict"
            return Arr(self, Dt("U", True, SInt(ctx.int("characters").e)), a.shape_, ("items decoded", a.el) if ok else ("misread", a.el), True)

        def ndarray(shape=None, dtype=float, buffer=None, **k):
            if k or buffer is None:
                raise Unsupported("ndarray")
            if isinstance(shape, list):
                shape = tuple(shape)
            if isinstance(shape, Shp):
                shape = shape.sym_tuple()
            if isinstance(buffer, Buffer):
                a = buffer.a
                if shape != () or not isinstance(dtype, str) or dtype not in ("S1", "U1"):
                    raise Unsupported("ndarray")
                if (dtype == "S1") != (a.dt.kind == "u8") or (dtype == "U1") != (a.dt.kind == "u32"):
                    return Arr(self, Dt(dtype[0], True, 1), (), ("reinterpreted", a.el), True)
                return Arr(self, Dt(dtype[0], True, 1), (), a.el, True)
            a = isarr(buffer)
            if not ctx.must(a.contiguous):
                # refused, or read in the order of the memory
                raise ValueError("ndarray is not C-contiguous")
            if dtype in ("uint16", np.uint16, "u2", "uint32", np.uint32) and a.dt.kind == "S" and isinstance(a.el, tuple) and a.el[0] == "encoded":
                width = 2 if dtype in ("uint16", np.uint16, "u2") else 4
                k_ = ex(a.dt.chars)
                last = a.shape_[-1] if isinstance(a.shape_, tuple) else a.shape_.last
                want = (SInt(ex(last) * (k_ / width)),) if isinstance(a.shape_, tuple) else Shp(a.shape_.prefix, SInt(ex(last) * (k_ / width)))
                if not self.it.truth(same_shape(want, shape)):
                    raise TypeError("buffer is too small for requested array")
                codec = {2: "utf16", 4: "utf32"}[width] + NATIVE.lower()
                _, c, errors, src = a.el
                good = c == codec and (errors == "strict" or width == 4 and errors == "surrogatepass")
                return Arr(self, Dt("u16" if width == 2 else "u32", True), shape, ("units", codec[:5], src) if good else ("wrong units", a.el), True)
            if isinstance(dtype, DtName) and dtype.kind == "S" and a.dt.kind == "u8":
                last = a.shape_[-1] if isinstance(a.shape_, tuple) else a.shape_.last
                if not truth(z3.And(ex(dtype.n) > 0, ex(last) % ex(dtype.n) == 0)):
                    raise Unsupported("ndarray of part of the memory")
                want = SInt(ex(last) / ex(dtype.n))
                want = (want,) if isinstance(a.shape_, tuple) else Shp(a.shape_.prefix, want)
                el = ("groups", a.el, dtype.n)
                if not self.it.truth(same_shape(want, shape)):
                    raise TypeError("buffer is too small for requested array")
                return Arr(self, Dt("S", True, dtype.n), shape, el, True)
            raise Unsupported("ndarray")

        def zeros(shape=None, dtype=float, **k):
            if isinstance(shape, (Sym, Count)) or shape.__class__ is int:
                shape = (shape,)
            if isinstance(dtype, str) and dtype[:1] in "US" and dtype[1:].isdigit():
                dtype = DtName(dtype[0], int(dtype[1:]))
            if isinstance(shape, list):
                shape = tuple(shape)
            if isinstance(shape, Shp):
                shape = shape.sym_tuple()
            if isinstance(shape, tuple) and len(shape) == 1 and shape[0].__class__ is int and shape[0] == 0 and dtype in ("uint16", "uint32", np.uint16, np.uint32):
                return Arr(self, Dt(KINDS[np.dtype(dtype).name], True), (0,), ("nothing",), True)
            if isinstance(dtype, DtName) and dtype.kind and not k:
                return Arr(self, Dt(dtype.kind, True, dtype.n), shape, ("zeros",), True)
            raise Unsupported("zeros")

        def array(a, dtype=None, order="K", copy=True, subok=False, **k):
            if k or subok:
                raise Unsupported("array")
            if isinstance(a, FocusSeq) and isinstance(dtype, DtName):
                return Arr(self, Dt(dtype.kind, True, dtype.n), (self.number(a),), ("items", a), True)
            a = isarr(a)
            if isinstance(dtype, Dt):
                if dtype.kind != a.dt.kind or dtype.chars is not a.dt.chars:
                    raise Unsupported("array of another dtype")
                d = dtype
            elif dtype is None:
                d = a.dt
            elif dtype in (np.uint16, np.uint32, "uint16", "uint32") and a.dt.kind == KINDS[np.dtype(dtype).name]:
                d = Dt(a.dt.kind, True)
            else:
                raise Unsupported("array of another dtype")
            return a.like(dt=d, contiguous=True if order == "C" else a.contiguous if a.contiguous is True else self.fresh("contiguous"), pytype=np.ndarray)

        def asarray(a, dtype=None, order=None, **k):
            return array(a, dtype, order or "K", **k)

        def ascontiguous(a, dtype=None):
            a = array(a, dtype, "C")
            return a.like(shape=(1,)) if a.shape_ == () else a

        def prod(s, *a, **k):
            if a or k:
                raise Unsupported("prod")
            if isinstance(s, Arr):
                raise Unsupported("prod")
            return total(tuple(s) if isinstance(s, list) else s)

        def bi_range(*a):
            if len(a) == 1 and isinstance(a[0], (Count, SInt)):
                n = a[0]
                c = Counter()
                if isinstance(n, SInt) and not truth(n.e > 0) or isinstance(n, Count) and not truth(z3.And(n.prefix.count > 0, ex(n.last) > 0)):
                    return FocusSeq([])
                s = FocusSeq([(True, c)])
                s.n = n
                self.ranges[id(c)] = (c, n)
                return s
            return range(*a)

        def bi_str(x="", *a, **k):
            if isinstance(x, (SInt, Longest)) and not a and not k:
                return DtName("", x)
            return self.it.bi_str(x, *a, **k)

        def bi_max(*a, **k):
            if len(a) == 1 and isinstance(a[0], FocusSeq):
                return Longest(a[0])
            return self.it.bi_max(*a, **k)

        def deepcopy(x):
            if isinstance(x, Shp):
                return x.copy()
            if isinstance(x, (list, tuple)):
                return type(x)(x)
            raise Unsupported("copy")

        def np_text(tp, plain):
            def f(x=None, *a):
                if isinstance(x, Text) and tp is np.str_ and not a:
                    return Arr(self, Dt("U", True, x.sym_len()), (), ("text", x.src), True, np.str_)
                if isinstance(x, Bytes) and tp is np.bytes_ and not a:
                    return Arr(self, Dt("S", True, x.sym_len()), (), ("bytes", x.src), True, np.bytes_)
                if isinstance(x, Plain) and x.tp is not str and tp is np.bytes_ and not a:
                    return Arr(self, Dt("S", True, SInt(ctx.int("n").e)), (), ("bytes", ("utf8", x.src)), True, np.bytes_)
                if isinstance(x, Plain) and x.tp is str and tp is np.str_ and not a:
                    return Arr(self, Dt("U", True, SInt(ctx.int("n").e)), (), ("text", x.src), True, np.str_)
                if isinstance(x, Model):
                    raise Unsupported("text")
                return tp(x, *a) if x is not None else tp()

            return f

        def ndenumerate(a):
            a = isarr(a)
            x = Item(a)
            return FocusSeq([(True, (x.place, x))] if some(a.shape_) else [])

        self.ranges = {}
        self.array = array
        m[np.atleast_1d], m[np.char.encode], m[np.char.decode], m[np.ndarray], m[np.zeros] = atleast_1d, char_encode, char_decode, ndarray, zeros
        m[np.array], m[np.asarray], m[np.ascontiguousarray], m[np.prod], m[range] = array, asarray, ascontiguous, prod, bi_range
        m[str], m[max], m[copy.deepcopy], m[np.ndenumerate] = bi_str, bi_max, deepcopy, ndenumerate
        m[copy.copy] = deepcopy
        m[np.str_], m[np.bytes_] = np_text(np.str_, str), np_text(np.bytes_, bytes)
        m[np.empty] = lambda *a, **k: Opaque("memory with anything in it")
        self.it.hooks["segment_empty"] = lambda x: False

    def number(self, seq):
        """The length of a list made from a range."""
        if not seq.elems:
            return 0
        if len(seq.elems) == 1:
            s = seq.elems[0][1]
            s = s.src[1] if isinstance(s, Bytes) and s.src[0] == "utf8" else s.src if isinstance(s, Text) else None
            if isinstance(s, tuple) and s[0] in ("group", "misplaced") and id(s[3]) in self.ranges:
                return self.ranges[id(s[3])][1]
        raise Unsupported("length of a list")

    def dropped(self, n):
        """NumPy drops null characters at the end of a scalar."""
        x = self.ctx.int("characters before the nulls").e
        self.ctx.assume(x >= 0)
        self.ctx.assume(x <= ex(n))
        self.ctx.assume(z3.Implies(ex(n) > 0, x >= 0))
        return SInt(x)

    def fresh(self, n):
        return self.ctx.bool(n)

    def units(self, kind, dims):
        """An arbitrary array of code units."""
        c = self.ctx
        last = SInt(c.int("last length").e)
        c.assume(last.e >= 0)
        shape = () if dims == 0 else (last,) if dims == 1 else Shp(Prefix(c), last)
        return Arr(self, Dt(kind, c.bool("native") if kind != "u8" else True), shape, ("given",), c.bool("contiguous"))

    def text(self, dims, scalar=False):
        c = self.ctx
        n = SInt(c.int("room for characters").e)
        c.assume(n.e >= 0)
        a = self.units("U", dims)
        a.dt = Dt("U", True if scalar else a.dt.native, n)
        if scalar:
            a.pytype, a.contiguous = np.str_, True
        return a


class Item(Model):
    """An arbitrary item of an array of text."""

    def __init__(self, a):
        self.a = a
        self.place = ItemPlace(self)

    def sym_isinstance(self, cls):
        return issubclass(TYPES[self.a.dt.kind], cls)

    def sym_type(self):
        return TYPES[self.a.dt.kind]

    def encode(self, codec="utf-8", errors="strict"):
        return Text(("item", self)).encode(codec, errors)

    def sym_getattr(self, n):
        if n == "encode" and self.a.dt.kind == "U":
            return self.encode
        raise Unsupported(f"attribute {n} of an item")


class ItemPlace(Model):
    def __init__(self, item):
        self.item = item


class Plain(Model):
    """A str, bytes or bytearray."""

    def __init__(self, tp):
        self.tp, self.src = tp, ("given",)

    def sym_isinstance(self, cls):
        return issubclass(self.tp, cls)

    def sym_type(self):
        return self.tp

    def decode(self, codec="utf-8", errors="strict"):
        if self.tp is str:
            raise AttributeError("decode")
        return Bytes(("memory", self.src, 8, "LE")).decode(codec, errors)

    def encode(self, codec="utf-8", errors="strict"):
        if self.tp is not str:
            raise AttributeError("encode")
        return Text(self.src).encode(codec, errors)

    def sym_getattr(self, n):
        if n == ("encode" if self.tp is str else "decode"):
            return getattr(self, n)
        raise Unsupported(f"attribute {n} of text")

    def sym_eq(self, o):
        return self is o


def run(it, fn, args):
    try:
        return it.run_function(fn, args, {}), None
    except (Unsupported, PathEnd):
        raise
    except Exception as x:  # noqa: BLE001
        return None, x


def encode(bits, dims, scalar):
    def go(ctx):
        from hdf5storage import utilities as u

        w = World(ctx)
        a = w.text(dims, scalar)
        before = (a.dt, a.shape_, a.el)
        r, e = run(ctx.interp, getattr(u, f"convert_numpy_str_to_uint{bits}"), [a])
        o = ctx.oblige
        if e is not None:
            o("encode:only text without the representation asked for is refused", bits == 16 and isinstance(e, UnicodeError), repr(e))
            return
        if not isinstance(r, Arr):
            raise Unsupported("what was made")
        info = lambda: f"{a} {r}"  # noqa: E731
        o("encode:an array of units is made", r.sym_isinstance(np.ndarray) and r.dt.kind == f"u{bits}", info)
        o("encode:in native byte order", SBool(z3.BoolVal(r.dt.native) if isinstance(r.dt.native, bool) else r.dt.native.e), info)
        last = a.shape_[-1] if isinstance(a.shape_, tuple) and a.shape_ else a.shape_.last if isinstance(a.shape_, Shp) else 1
        rest = a.shape_.prefix.count if isinstance(a.shape_, Shp) else z3.IntVal(1)
        if r.el == ("nothing",):
            o("encode:nothing only for text of no size", SBool(z3.Or(ex(last) == 0, rest == 0, ex(a.dt.chars) == 0)), info)
            ctx.cover("nothing")
            return
        o("encode:the units are those of the text, in its order", r.el == ("units", f"utf{bits}", ("given",)), info)
        if bits == 32:
            n = SInt(ex(last) * ex(a.dt.chars))
            want = (n,) if isinstance(a.shape_, tuple) else Shp(a.shape_.prefix, n)
            o("encode:the last dimension holds all the units of the items", same_shape(r.shape_, want), info)
        else:
            ok = isinstance(r.shape_, tuple) and isinstance(a.shape_, tuple) and len(r.shape_) == 1 or isinstance(r.shape_, Shp) and isinstance(a.shape_, Shp) and r.shape_.prefix is a.shape_.prefix
            o("encode:only the last dimension gets longer", ok, info)
        o("encode:the text is not changed", before == (a.dt, a.shape_, a.el) and not a.fills)
        ctx.cover("encoded")

    return go


def decode(fn, kind, dims, given):
    def go(ctx):
        from hdf5storage import utilities as u

        w = World(ctx)
        a = w.units(kind, dims)
        last = a.shape_[0] if dims == 1 else a.shape_.last
        if given:
            k = SInt(ctx.int("length").e)
            ctx.assume(k.e > 0)
            ctx.assume(last.e % k.e == 0)
            if ctx.choose(2, "no units") == 0:
                ctx.assume(last.e > 0)
        else:
            ctx.assume(last.e > 0)
            k = last
        r, e = run(ctx.interp, getattr(u, fn), [a, k] if given else [a])
        o = ctx.oblige
        if e is not None:
            o("decode:only units that are no text are refused", isinstance(e, UnicodeError), f"{a} {e!r}")
            return
        if not isinstance(r, Arr):
            raise Unsupported("what was made")
        info = lambda: f"{a} {r}"  # noqa: E731
        text = fn == "convert_to_numpy_str"
        o("decode:an array of text is made", r.sym_isinstance(np.ndarray) and r.dt.kind == ("U" if text else "S"), info)
        want = SInt(ex(last) / ex(k))
        want = (want,) if dims == 1 else Shp(a.shape_.prefix, want)
        n = r.dt.chars
        if isinstance(n, Longest):
            o("decode:there is room for every item", r.el[0] == "items" and all(isinstance(x, Bytes) and n.covers(x.sym_len()) for _, x in r.el[1].elems), info)
        else:
            o("decode:there is room for as many characters as units", SBool(ex(n) == ex(k)) if text or kind == "u8" else SBool(ex(n) >= 4 * ex(k)), info)
        el = r.el
        if el == ("zeros",):
            f = r.fills
            if f:
                o("decode:every item is the text of its own units", len(f) == 1 and isinstance(f[0][0], Idx) and isinstance(f[0][1], (Text, Bytes, Arr)) and source(f[0][1], text) == ("group", ("given",), k, f[0][0].elem), info)
            else:
                o("decode:every item is read", SBool(z3.Or(ex(last) == 0, a.shape_.prefix.count == 0 if dims > 1 else False)), info)
        elif el[0] == "items":
            xs = el[1].elems
            for _, x in xs:
                s = source(x, text)
                o("decode:every item is the text of its own units", isinstance(s, tuple) and s[0] == "group" and s[1] == ("given",) and truth(ex(s[2]) == ex(k)) and id(s[3]) in w.ranges and
                  equal(w.ranges[id(s[3])][1], total(want)), info)
            if not xs:
                o("decode:every item is read", SBool(z3.Or(ex(last) == 0, a.shape_.prefix.count == 0 if dims > 1 else False)), info)
        else:
            o("decode:every item is the text of its own units", el[0] == "groups" and el[1] == ("given",) and SBool(ex(el[2]) == ex(k)), info)
        o("decode:only the last dimension gets shorter", same_shape(r.shape_, want), info)
        ctx.cover("decoded")

    return go


def source(x, text):
    """The units that an item was read from."""
    if isinstance(x, Text):
        return x.src if text else None
    if isinstance(x, Bytes):
        return x.src[1] if not text and x.src[0] == "utf8" else None
    if isinstance(x, Arr):
        if text and x.el[0] == "text":
            return x.el[1]
        if not text and x.el[0] == "bytes" and isinstance(x.el[1], tuple) and x.el[1][0] == "utf8":
            return x.el[1][1]
    return None


def to_str(kind, dims, scalar):
    def go(ctx):
        from hdf5storage import utilities as u

        w = World(ctx)
        if kind in ("str", "bytes", "bytearray"):
            a = Plain(dict(str=str, bytes=bytes, bytearray=bytearray)[kind])
        elif kind in ("U", "S"):
            a = w.text(dims, scalar)
            a.dt = Dt(kind, a.dt.native if kind == "U" else True, a.dt.chars)
            a.pytype = TYPES[kind] if scalar else np.ndarray
        else:
            a = w.units(kind, dims)
            if scalar:
                a.pytype, a.dt = TYPES[kind], Dt(kind, True)
        r, e = run(ctx.interp, u.convert_to_str, [a])
        o = ctx.oblige
        if e is not None:
            o("str:only what is no text is refused", isinstance(e, UnicodeError) and not (kind == "str"), f"{a} {e!r}")
            return
        if kind == "str":
            o("str:a str is returned as it is", r is a, repr(r))
        elif r == "":
            last = a.shape_[-1] if isinstance(a, Arr) and isinstance(a.shape_, tuple) and a.shape_ else a.shape_.last if isinstance(a, Arr) and isinstance(a.shape_, Shp) else 1
            o("str:no text only for no units", SBool(z3.Or(ex(a.dt.chars) == 0, ex(last) == 0)) if kind in "US" else False)
        else:
            o("str:the text of all the units in C order", isinstance(r, Text) and r.src == ("given",), f"{a} {r!r}")
        ctx.cover("text")

    return go


def forms(fn, kind):
    """What is text already."""

    def go(ctx):
        from hdf5storage import utilities as u

        w = World(ctx)
        text = fn == "convert_to_numpy_str"
        if kind in ("str", "bytes", "bytearray"):
            a = Plain(dict(str=str, bytes=bytes, bytearray=bytearray)[kind])
        else:
            scalar = kind.endswith("scalar")
            k = kind.split()[0]
            if k in ("U", "S"):
                a = w.text(0 if scalar else ctx.choose(3, "dimensions"), scalar)
                a.dt = Dt(k, a.dt.native if k == "U" else True, a.dt.chars)
            else:
                a = w.units(k, 0)
                a.dt = Dt(k, True) if scalar else a.dt
            if scalar:
                a.pytype = TYPES[k]
        length = ctx.pick([None, 1], "length")
        r, e = run(ctx.interp, getattr(u, fn), [a, length])
        o = ctx.oblige
        info = lambda: f"{a} {r}"  # noqa: E731
        target = "U" if text else "S"
        if isinstance(a, Arr) and a.dt.kind == target:
            o("forms:what is of the type already is returned as it is", e is None and r is a, lambda: f"{a} {r} {e!r}")
            ctx.cover("done")
            return
        if e is not None:
            o("forms:only what is no text is refused", isinstance(e, UnicodeError), repr(e))
            return
        if not isinstance(r, Arr):
            raise Unsupported("what was made")
        o("forms:NumPy text is made", r.dt.kind == target, info)
        if kind in ("U", "S"):
            o("forms:of the same shape", same_shape(r.shape_, a.shape_), info)
            if text:
                o("forms:every item is decoded", r.el == ("items decoded", ("given",)), info)
            else:
                n = r.dt.chars
                o("forms:there is room for every item", isinstance(n, SInt) and SBool(n.e >= 4 * a.dt.chars.e), info)
                f = r.fills
                ok = len(f) == 1 and isinstance(f[0][0], ItemPlace)
                s = source(f[0][1], False) if ok else None
                if not f:
                    o("forms:every item is encoded", not some(a.shape_) and r.el == ("zeros",), info)
                    return
                o("forms:every item is encoded", ok and s == ("item", f[0][0].item) and f[0][0].item.a is a and r.el == ("zeros",), info)
        else:
            s = r.el[1] if r.el[0] in ("text", "bytes") else r.el
            good = s == ("given",) or s == ("utf8", ("given",)) or s == ("units one", ("given",))
            one = isinstance(r.shape_, tuple) and (not r.shape_ or len(r.shape_) == 1)
            f = r.fills
            if r.el == ("zeros",):
                good = len(f) == 1 and source(f[0][1], text) == ("group", ("given",), f[0][1].src[2] if isinstance(f[0][1], Text) else None, f[0][0].elem if isinstance(f[0][0], Idx) else None)
            elif r.el[0] == "groups":
                good = r.el[1] == ("given",)
            o("forms:the text is the one given", good and one, info)
        ctx.cover("done")

    return go


def procedures(tier):
    out = []
    for bits in (16, 32):
        for dims, scalar in ((0, True), (0, False), (1, False), (2, False)):
            out.append((f"convert_numpy_str_to_uint{bits}: {'scalar' if scalar else f'{dims} dimensions'}", encode(bits, dims, scalar), dict(must_cover={"encoded"})))
    for fn in ("convert_to_numpy_str", "convert_to_numpy_bytes"):
        for kind in BITS:
            for dims in (1, 2):
                for given in (False, True):
                    out.append((f"{fn}: {kind} {dims} dimensions{' with a length' if given else ''}", decode(fn, kind, dims, given), dict(must_cover={"decoded"})))
        for kind in ("str", "bytes", "bytearray", "U", "S", "U scalar", "S scalar", "u8 scalar", "u16 scalar", "u32 scalar", "u8 0d", "u16 0d", "u32 0d"):
            out.append((f"{fn}: {kind}", forms(fn, kind), dict(must_cover={"done"})))
    for kind in (*BITS, "U", "S"):
        for dims, scalar in ((0, True), (0, False), (1, False), (2, False)):
            out.append((f"convert_to_str: {kind} {'scalar' if scalar else f'{dims} dimensions'}", to_str(kind, dims, scalar), dict(must_cover={"text"})))
    for kind in ("str", "bytes", "bytearray"):
        out.append((f"convert_to_str: {kind}", to_str(kind, 0, True), dict(must_cover={"text"})))
    return out
