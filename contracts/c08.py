"""C08: NumpyScalarArrayMarshaller.read gives back what its write was given.

The data, the options and NumPy's operations are those of
contracts/marshmodel.py.  What is stored (the array given to HDF5 and the
Attributes) is what ``read`` finds; how arrays are encoded is told by the
operations that made them, and the contracts of the decoding functions (C10,
C11, C16) undo exactly the encoding they are the inverse of: anything else
leaves a trace in the operations, the shape or the dtype of what is read.

Text is known by the number of characters its items have room for, the highest
byte, how many 16 bit units each item takes, and what is left of a scalar when
NumPy drops the null characters at its end.
"""
import ast
import collections
import contextlib
import warnings

import h5py
import numpy as np

from contracts import marshmodel as mm
from contracts.c07 import Under
from pyvc.engine import z3, Idx, Lift, Model, Opaque, PathEnd, SBool, SInt, Sym, Unsupported, current

TRUSTED = [
    *mm.TRUSTED[:2],
    "HDF5 gives back the array stored with its dtype and shape, as an ndarray (text in items of the same size, logical values, references, compound "
    "types that are not pairs of floats); Attributes are read back as they were asked for (C14)",
    "convert_numpy_str_to_uint16/32, convert_to_numpy_str/bytes with a length (C10), encode/decode_complex (C11), write/read_object_array (C16) are "
    "each other's inverses; UTF-16 takes as many units per item as characters only if each item does (or it is read back the same)",
    "NumPy: zeros, asarray, asmatrix, view, flat[0] (which drops null characters at the end of text), ljust, assignment of a shape with as many elements",
]


def truth(e):
    return current().interp.truth(SBool(e) if not isinstance(e, bool) else e)


class Code(Model):
    """The encoding of text as ``n`` units along the last axis, ``k`` for each item."""

    def __init__(self, what, n, k):
        self.what, self.n, self.k = what, n, k

    def __repr__(self):
        return f"{self.what}"


class Bits(Model):
    """A number of bits that is some multiple of 8 or 32."""

    def __init__(self, per, count):
        self.per, self.count = per, count

    def sym_isinstance(self, cls):
        return issubclass(int, cls)

    def sym_int(self):
        return self

    def sym_binop(self, op, o, refl):
        name = type(op).__name__ if not isinstance(op, str) else op
        if name in ("Div", "FloorDiv") and not refl and isinstance(o, int) and o > 0 and self.per % o == 0:
            return SInt(self.count * (self.per // o))
        if name == "FloorDiv" and not refl and isinstance(o, int) and o > 0:
            return SInt(self.count * self.per / o)
        if name == "Mult" and isinstance(o, int) and o >= 0:
            return Bits(self.per * o, self.count)
        raise Unsupported("arithmetic with a number of bits")


class Name(Under):
    """The name of the dtype of text."""

    def __init__(self, prefix, per, count):
        super().__init__(prefix, count)
        self.per, self.count = per, count

    def again(self, prefix):
        return Name(prefix, self.per, self.count)

    def lstrip(self, chars=None):
        r = super().lstrip(chars)
        return self.again(r.prefix)

    def removeprefix(self, p):
        return self.again(self.prefix.removeprefix(p))

    def replace(self, a, b):
        if any(c.isdigit() for c in a):
            raise Unsupported("replacing digits")
        return self.again(self.prefix.replace(a, b))

    def sym_eq(self, o):
        if isinstance(o, str) and not self.empty() and o.rstrip("0123456789") == self.prefix != o:
            return SBool(self.count * self.per == int(o[len(self.prefix):]))
        return super().sym_eq(o)

    def sym_getitem(self, i):
        r = super().sym_getitem(i)
        return self.again(r.prefix) if isinstance(r, Under) else r

    def sym_int(self):
        super().sym_int()
        return Bits(self.per, self.count)

    def sym_binop(self, op, o, refl):
        if refl and isinstance(o, str):
            return self.again(o + self.prefix)
        raise Unsupported("name of a dtype")


class Dt8(mm.Dt):
    """``root``: which dtype it is; text has room for ``chars`` characters."""

    def __init__(self, w, tp, fields=None, root=None, record=False, chars=None, **k):
        super().__init__(w, tp, fields, **k)
        self.root, self.record, self.chars = root or object(), record, chars
        if tp in (np.bytes_, np.str_):
            if chars is None:
                self.chars = chars = w.nonneg("characters").e
            self.itemsize_ = SInt(chars * (4 if tp is np.str_ else 1))

    def sym_getattr(self, n):
        if n == "name" and self.tp in (np.bytes_, np.str_):
            return Name("bytes", 8, self.chars) if self.tp is np.bytes_ else Name("str", 32, self.chars)
        if n == "type" and self.record:
            return np.record
        return super().sym_getattr(n)

    def as_record(self, record):
        r = Dt8(self.w, self.tp, self.fields_, self.root, record, self.chars, itemsize=self.itemsize_, hasobject=self.hasobject_, null=self.null, hz=self.hz)
        return r

    def newbyteorder(self, *a):
        raise Unsupported("byte order")


class Flat8(mm.Flat):
    def sym_getitem(self, i):
        a = self.arr
        if i != 0:
            raise Unsupported("element")
        if not truth(mm.expr(a.size_) > 0):
            raise IndexError("index 0 is out of bounds")
        if a.dt.tp is np.object_ or a.dt.record:
            raise Unsupported("element of an array of objects or records")
        if not truth(mm.expr(a.size_) == 1):
            return a.like(a.term + ("first",), shape=(), size=1, pytype=a.dt.tp, owner="new")
        if a.dt.tp in (np.bytes_, np.str_):
            w = a.w
            n = w.core if "stripped" not in a.term else a.dt.chars
            return a.like(a.term + ("stripped",), shape=(), dt=Dt8(w, a.dt.tp, chars=z3.If(n < a.dt.chars, n, a.dt.chars)), pytype=a.dt.tp, owner="new", size=1)
        return a.like(shape=(), size=1, pytype=a.dt.tp, owner="new")


class Arr8(mm.Arr):
    def like(self, term=None, shape=None, dt=None, owner=None, size=None, pytype=None, nbytes=None):
        return Arr8(self.w, dt or self.dt, self.shape_ if shape is None else shape, self.size_ if size is None else size,
                    self.term if term is None else term, owner or self.owner, pytype or self.pytype,
                    nbytes if nbytes is not None else self.nbytes_ if dt is None and size is None else None)

    def sym_getattr(self, n):
        if n == "flat":
            return Flat8(self)
        if n in ("ljust", "item", "tolist", "reshape"):
            return getattr(self, n)
        return super().sym_getattr(n)

    def ljust(self, k, fill=None):
        if self.pytype not in (np.bytes_, np.str_, bytes, str):
            raise Unsupported("ljust of an array")
        wide = issubclass(self.pytype, str)
        n = self.dt.chars
        k = k.e if isinstance(k, SInt) else z3.IntVal(k)
        ok = fill == ("\x00" if wide else b"\x00")
        r = z3.If(k > n, k, n)
        return self.like(self.term if ok else self.term + ("padded",), dt=Dt8(self.w, self.dt.tp, chars=r), pytype=str if wide else bytes)

    def item(self):
        if self.pytype in (np.bytes_, np.str_):
            return self.like(pytype=str if self.pytype is np.str_ else bytes)
        raise Unsupported("item")

    def sym_str(self, *a):
        if self.pytype in (np.str_, str) and not a:
            return self.like(pytype=str)
        raise Unsupported("text of an array")

    def sym_bytes(self, *a):
        if self.pytype in (np.bytes_, bytes) and not a:
            return self.like(pytype=bytes)
        raise Unsupported("bytes of an array")

    def sym_getitem(self, i):
        if isinstance(i, mm.Key):
            r = self.like(self.term + (i,), shape=FieldShape8(self), dt=Dt8(self.w, np.float64), size=1)
            return r
        return super().sym_getitem(i)

    def sym_len(self):
        if self.pytype in (np.str_, np.bytes_, str, bytes):
            return SInt(self.dt.chars)
        return super().sym_len()

    def sym_tuple(self):
        if self.term[0] == "shape" and self.ndims() == 1:
            return self.term[1]
        raise Unsupported("tuple of an array")

    def sym_iter(self):
        raise Unsupported("iteration of an array")

    def view(self, dt=None, tp=None):
        if isinstance(dt, type) and issubclass(dt, np.ndarray) and tp is None:
            if dt is np.recarray:
                return self.like(dt=self.dt.as_record(True) if self.dt.fields_ is not None else None, pytype=dt)
            if dt is np.chararray and self.dt.tp not in (np.bytes_, np.str_):
                raise ValueError("Can only create a chararray from string data.")
            return self.like(pytype=dt)
        if isinstance(dt, mm.Void) and tp in (None, np.ndarray):
            return self.like(dt=dt.dt.as_record(False), pytype=tp or self.pytype, nbytes=self.nbytes_)
        return super().view(dt, tp)

    def sym_compare(self, op, a, b):
        if a is not self:
            op, a, b = {"Gt": "Lt", "GtE": "LtE", "Lt": "Gt", "LtE": "GtE"}[op], b, a
        return Below(a, op, b)

    def sym_setattr(self, n, v):
        if n == "shape" and self.owner != "caller" and isinstance(v, (tuple, mm.ShapeN)) and self.sym_isinstance(np.ndarray):
            w = self.w
            if same(w, v, w.data.shape_) and truth(mm.expr(self.size_) == mm.expr(w.data.size_)):
                self.shape_ = v
                return
            raise Unsupported("assignment of a shape")
        super().sym_setattr(n, v)

    def reshape(self, *s):
        s = s[0] if len(s) == 1 else s
        r = self.like(owner="new")
        r.sym_setattr("shape", s)
        return r


class FieldShape8(mm.FieldShape):
    def __init__(self, a):
        super().__init__(a.w)
        self.hz = a.dt.hz

    def sym_all(self):
        return SBool(z3.Or(self.w.ctx.bool("field with elements").e, z3.Not(mm.bexpr(self.hz))))


class Below(Model):
    def __init__(self, a, op, o):
        self.a, self.op, self.o = a, op, o


class Dset8(mm.Dset):
    def sym_getitem(self, i):
        if i is Ellipsis:
            return self.contents.like(owner="new", pytype=np.ndarray)
        if i == ():
            if isinstance(self.contents.shape_, tuple) and not self.contents.shape_:
                raise Unsupported("scalar of a Dataset")
            return self.contents.like(owner="new", pytype=np.ndarray)
        raise Unsupported("part of a Dataset")

    def sym_setitem(self, i, v):
        raise Unsupported("assignment to a new Dataset")


def same(w, a, b):
    """Equality of shapes."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(truth(mm.expr(x) == mm.expr(y)) for x, y in zip(a, b))
    return isinstance(a, mm.ShapeN) and isinstance(b, mm.ShapeN) and a.key == b.key


def strip(term, *ops):
    """The operations without the last of ops, None if it is not there."""
    for i in range(len(term) - 1, 0, -1):
        if any(term[i] is o or (not isinstance(o, Model) and not isinstance(term[i], Model) and term[i] == o) for o in ops):
            return cancel(term[:i] + term[i + 1:])
    return None


def cancel(term):
    out = []
    for x in term:
        if x == "T" and out[-1:] == ["T"]:
            out.pop()
        else:
            out.append(x)
    return tuple(out)


class Grp8(mm.Grp):
    def create_group(self, k):
        raise PathEnd  # structures in Groups: bounded


class LowLevel8(mm.LowLevel):
    def sym_getattr(self, n):
        if n == "read_object_array":
            return self.read_object_array
        return super().sym_getattr(n)

    def write_object_array(self, data):
        return data.like(data.term + ("references",), dt=Dt8(self.w, np.object_, ref=True, hasobject=True), owner="new", pytype=np.ndarray)

    def read_object_array(self, a):
        if not isinstance(a, Arr8) or not a.dt.ref:
            raise Unsupported("read_object_array")
        t = strip(a.term, "references")
        return a.like(t or a.term + ("misread",), dt=Dt8(self.w, np.object_, hasobject=True), owner="new", pytype=np.ndarray)


class World8(mm.World):
    Dt, Arr = Dt8, Arr8

    def __init__(self, ctx, tp, container, fixed):
        super().__init__(ctx, "C08", tp, container, "nothing", fixed)
        self.f, self.grp = LowLevel8(self), Grp8(self)

    def make(self, kind, container):
        c = self.ctx
        a = super().make(kind, container)
        d = a.dt
        self.highest = self.nonneg("highest byte").e
        self.units = self.nonneg("UTF-16 units per item").e
        dt = Dt8(self, d.tp, d.fields_, hasobject=d.hasobject_, null=d.null, hz=d.hz, record=container == "recarray")
        self.core = self.nonneg("characters before the nulls").e
        if dt.chars is not None:
            c.assume(self.core <= dt.chars)
            if container != "scalar":
                c.assume(dt.chars >= 1)
        if kind == "struct":
            c.assume(mm.expr(a.size_) >= 1)
        return Arr8(self, dt, a.shape_, a.size_, a.term, a.owner, a.pytype)

    def codes(self, a, what, tp, owner="new"):
        n = self.nonneg("code units")
        t = a.dt
        k = {"utf16": self.units, "utf32": t.chars, "bytes": t.chars}[what]
        size = self.nonneg("units")
        self.ctx.assume(size.e == mm.expr(a.size_) * k)
        self.ctx.assume((size.e == 0) == z3.Or(mm.expr(a.size_) == 0, k == 0))
        op = Code(what, n, k)
        if isinstance(a.shape_, tuple):
            last = a.shape_[-1] if a.shape_ else 1
            self.ctx.assume(n.e == mm.expr(last) * k)
            if a.ndims() <= 1:
                self.ctx.assume(n.e == size.e)
            shape = a.shape_[:-1] + (n,)
        else:
            tag = a.shape_.key[0]
            if a.shape_.key[1]:
                raise Unsupported("code units of a transposed array")
            last = self.length(tag, True)
            self.ctx.assume(n.e == last.e * k)
            shape = mm.ShapeN(self, (f"{tag} {what}", False))
            self.size_of[shape.key[0]] = size
            self.lengths[shape.key[0], True] = n
            self.ndims_[shape.key[0]] = self.ndim(tag)
        op.last = last
        self.ctx.assume(z3.Implies(mm.expr(a.size_) > 0, mm.expr(last) > 0))
        return a.like(a.term + (op,), shape=shape, dt=Dt8(self, tp), owner=owner, size=size, pytype=np.ndarray)

    def decode(self, a, tp, whats, length):
        """What text reads as, if it is what was encoded."""
        code = next((x for x in reversed(a.term) if isinstance(x, Code)), None)
        if not isinstance(length, (SInt, int)) or isinstance(length, bool):
            raise Unsupported("decoding without the length")
        bad = Arr8(self, Dt8(self, tp, chars=self.nonneg("misread").e), (self.nonneg("misread"),), self.nonneg("misread"), ("misread",), "new")
        if code is None or code.what not in whats or code.what == "bytes" and a.dt.tp is not np.uint8 and not truth(self.highest < 128):
            return bad
        t = a.term[a.term.index(code) + 1:]
        plain = isinstance(a.shape_, tuple)
        if "T" in t and not plain or any(x not in ("T", "1d", "2d") for x in t if x != ("astype", np.uint16)):
            return bad
        e = mm.expr(length)
        if not truth(z3.And(e == code.k, e == self.data.dt.chars, e > 0)):
            return bad
        last = a.shape_[-1] if plain else a.shape_.sym_getitem(-1)
        if last is not code.n and not truth(mm.expr(last) == code.n.e):
            return bad
        if plain:
            shape, size = a.shape_[:-1] + (code.last,), code.last
        else:
            shape, size = mm.ShapeN(self, ("data", False)), self.size_of["data"]
        term = tuple(x for x in a.term if x is not code and x != ("astype", np.uint16))
        return Arr8(self, Dt8(self, tp, chars=e), shape, size, cancel(term), "new")

    def models(self):
        super().models()
        w, it = self, self.it
        m, b = it.models, it.by_name
        zeros_, prod_ = m[np.zeros], m[np.prod]

        def typed(tp):
            """What a dtype's name or type stands for."""
            if isinstance(tp, Name):
                if tp.prefix in ("S", "U"):
                    n = z3.If(tp.count * tp.per == 0, 1, tp.count * tp.per)
                    return Dt8(w, np.bytes_ if tp.prefix == "S" else np.str_, chars=n)
                raise Unsupported("dtype")
            if isinstance(tp, Lift):
                d = w.data.dt
                if mm.lifted_eq(tp, d.of_type(lambda t: np.dtype(t).name)):
                    return Dt8(w, d.tp)
                raise Unsupported("dtype")
            if tp == "object":
                return Dt8(w, np.object_, hasobject=True)
            if isinstance(tp, (str, type)):
                x = np.dtype(tp)
                if x.type in (np.bytes_, np.str_):
                    return Dt8(w, x.type, chars=z3.IntVal(max(1, x.itemsize // (4 if x.type is np.str_ else 1))))
                if x.fields is None and x.subdtype is None:
                    return Dt8(w, x.type)
            raise Unsupported(f"dtype {tp!r}")

        def zeros(shape=None, dtype=float, **k):
            if k:
                raise Unsupported("zeros")
            s = shape
            if isinstance(s, list):
                s = tuple(s)
            if isinstance(s, Arr8):
                s = s.sym_tuple()
            if isinstance(s, tuple) and s and all(isinstance(x, int) and x == 0 for x in s):
                return Arr8(w, typed(dtype), s, 0, ("zeros", s), "new")
            if same(w, s, w.data.shape_):
                return Arr8(w, typed(dtype), w.data.shape_, w.data.size_, ("zeros", "shape"), "new")
            raise Unsupported("zeros")

        def prod(s):
            if isinstance(s, Arr8) and s.term[0] == "shape" and same(w, s.term[1], w.data.shape_):
                return w.data.size_
            if isinstance(s, (tuple, mm.ShapeN)) and same(w, s, w.data.shape_):
                return w.data.size_
            return prod_(s)

        def text(tp, plain):
            def f(x=None, *a):
                if isinstance(x, Arr8) and not a and x.pytype in (tp, plain):
                    return x.like(pytype=tp)
                if x is None:
                    return tp()
                if isinstance(x, plain):
                    return tp(x, *a)
                raise Unsupported("text")

            return f

        def cast(tp):
            def f(a=0, *more):
                if isinstance(a, Arr8) and not more:
                    pt = a.pytype if a.ndims() else tp
                    if tp is np.bool_:
                        t = strip(a.term, ("as", np.uint8), ("astype", np.uint8))
                        if t is not None:
                            return a.like(t, dt=Dt8(w, tp), owner="new", pytype=pt)
                        if a.dt.tp is np.bool_:
                            return a.like(owner="new", pytype=pt)
                    return a.like(a.term + (("as", tp),), dt=Dt8(w, tp), owner="new", pytype=pt)
                if isinstance(a, (tuple, mm.ShapeN)) and not more:
                    n = len(a) if isinstance(a, tuple) else a.sym_len()
                    return Arr8(w, Dt8(w, tp), (n,), n, ("shape", a), "new")
                if isinstance(a, Arr8):
                    raise Unsupported("number of an array")
                if isinstance(a, (SInt, Model)):
                    return Opaque("number") if isinstance(a, Model) else a
                return tp(a, *more)

            return f

        def np_all(c):
            if isinstance(c, Below) and isinstance(c.o, int) and c.op in ("Lt", "LtE"):
                code = [x for x in c.a.term if isinstance(x, Code)]
                if [x.what for x in code] == ["bytes"] and all(x in ("1d", "2d", "T", ("astype", np.uint16)) for x in c.a.term[1:] if x is not code[0]):
                    k = c.o if c.op == "Lt" else c.o + 1
                    return SBool(z3.Or(mm.expr(c.a.size_) == 0, w.highest < k))
            raise Unsupported("np.all")

        def asmatrix(a, *x):
            if x or not isinstance(a, Arr8):
                raise Unsupported("asmatrix")
            s = a.shape_
            if isinstance(s, tuple) and len(s) < 2:
                s = (1,) * (2 - len(s)) + s
            return a.like(shape=s, pytype=np.matrix)

        def asarray(a, *x, **k):
            if x or k or not isinstance(a, Arr8):
                if isinstance(a, np.generic) and not x and not k and not isinstance(a, (np.bytes_, np.str_)):
                    return np.asarray(a)
                raise Unsupported("asarray")
            return a.like(pytype=np.ndarray)

        def codes(what, tp, may_raise):
            def f(a):
                if truth(mm.expr(a.nbytes()) == 0):
                    return Arr8(w, Dt8(w, tp), (0,), 0, ("zeros", (0,)), "new")
                if may_raise and w.ctx.choose(2, "not representable") == 1:
                    raise UnicodeEncodeError("utf-16", "", 0, 1, "surrogates not allowed")
                return w.codes(a, what, tp)

            return f

        def numpy_bytes(a, length=None):
            if not isinstance(a, Arr8):
                raise Unsupported("convert_to_numpy_bytes")
            if a.dt.tp is np.bytes_:
                return a
            if a.dt.tp in (np.uint8, np.uint16, np.uint32):
                return w.decode(a, np.bytes_, ("bytes",), length)
            raise Unsupported("convert_to_numpy_bytes")

        def numpy_str(a, length=None):
            if not isinstance(a, Arr8):
                raise Unsupported("convert_to_numpy_str")
            if a.dt.tp is np.str_:
                return a
            if a.dt.tp in (np.uint16, np.uint32):
                return w.decode(a, np.str_, ("utf16",) if a.dt.tp is np.uint16 else ("utf32",), length)
            raise Unsupported("convert_to_numpy_str")

        def encode(a, names):
            return a.like(a.term + ("pairs",), dt=Dt8(w, np.void, mm.Fields(w), root=a.dt, null=w.ctx.bool("nulls in complex names"), itemsize=a.dt.sym_getattr("itemsize")))

        def decode(a, names=(None, None)):
            if not isinstance(a, Arr8):
                raise Unsupported("decode_complex")
            if a.dt.fields_ is None:
                return a
            t = strip(a.term, "pairs")
            if t is None:
                raise Unsupported("complex numbers of a structure")
            return a.like(t, dt=a.dt.root, owner="new")

        def unescaped(k):
            if isinstance(k, mm.Key) and k.raw is not None:
                return k.raw
            raise Unsupported("unescape_path")

        def np_str(x="", *a, **k):
            if isinstance(x, SInt) and not a and not k:
                return Name("", 1, x.e)
            return it.bi_str(x, *a, **k)

        b["unescape_path"] = unescaped
        m[np.zeros], m[np.prod], m[np.all], m[np.asarray], m[np.asmatrix] = zeros, prod, np_all, asarray, asmatrix
        m[np.asanyarray] = lambda a: a
        m[np.bytes_], m[np.str_], m[str] = text(np.bytes_, bytes), text(np.str_, str), np_str
        for tp in (np.uint8, np.uint16, np.uint32, np.uint64, np.int64, np.bool_):
            m[tp] = cast(tp)
        b["convert_numpy_str_to_uint16"] = codes("utf16", np.uint16, True)
        b["convert_numpy_str_to_uint32"] = codes("utf32", np.uint32, False)
        b["convert_to_numpy_bytes"], b["convert_to_numpy_str"] = numpy_bytes, numpy_str
        b["encode_complex"], b["decode_complex"] = encode, decode
        b["convert_attribute_to_string"] = lambda v: v if isinstance(v, (str, Name, Lift, mm.Text)) or v is None else None
        b["convert_attribute_to_string_array"] = lambda v: v
        m[warnings.catch_warnings] = lambda **k: contextlib.nullcontext()
        m[warnings.simplefilter] = lambda *a, **k: None


mm_Dset = mm.Dset


def stored(w, d):
    """The Attributes as they are read."""
    at = collections.defaultdict(lambda: None)
    for t, a, discard in w.sets:
        if t is d and isinstance(a, dict):
            if discard:
                at.clear()
            for k, (_, v) in a.items():
                at[k] = v
    return at


def describe(r):
    return repr(r)


def round_trip(kind, container):
    def go(ctx):
        from hdf5storage import Marshallers
        from hdf5storage.exceptions import TypeNotMatlabCompatibleError

        w = World8(ctx, kind, container, {"store_python_metadata": True, "compress": False, "uncompressed_fletcher32_filter": False})
        it, opt = ctx.interp, w.options.sym_getattr
        m = Marshallers.NumpyScalarArrayMarshaller()
        data = w.data
        before = (data.shape_, data.dt, data.term)
        try:
            r = it.call(it.getattr(m, "write"), w.f, w.grp, w.name, data, None)
        except (Unsupported, PathEnd):
            raise
        except TypeNotMatlabCompatibleError:
            return  # C18
        except Exception as x:  # noqa: BLE001
            ctx.oblige("write:succeeds", False, repr(x))
            return
        if r is None:
            return  # C18
        d = w.node
        if isinstance(d, mm.SGrp):
            return  # bounded
        if not isinstance(d, mm.Dset) or not isinstance(d.contents, Arr8):
            raise Unsupported("what was stored")
        at = stored(w, d)
        dset = Dset8(w, False, d.contents)
        try:
            x = it.call(it.getattr(m, "read"), w.f, dset, at)
        except (Unsupported, PathEnd):
            raise
        except Exception as e:  # noqa: BLE001
            ctx.oblige("read:succeeds", False, f"{e!r} {d.contents} {dict(at)}")
            return
        ctx.cover("read")
        info = lambda: f"{data} {data.pytype} stored as {d.contents} with {dict(at)} read as {x!r} {getattr(x, 'pytype', type(x))}"  # noqa: E731
        o = ctx.oblige
        text = data.dt.tp in (np.bytes_, np.str_)
        if isinstance(x, (np.bytes_, np.str_)):  # a constant
            o("read:the value is a scalar of the type given", container == "scalar" and type(x) is data.pytype, info)
            o("read:the text is what was given", SBool(data.dt.chars == len(x)) if text else False, info)
            return
        if not isinstance(x, Arr8):
            raise Unsupported(f"value {x!r}")
        o("read:the container is the one given", mm.lifted_eq(x.pytype, data.pytype), info)
        o("read:the shape is the one given", shapes(x.shape_, data.shape_), info)
        if text:
            o("read:the dtype is the one given", x.dt.tp is data.dt.tp and SBool(x.dt.chars == data.dt.chars), info)
        elif isinstance(x.term[0], str) and x.term[0] == "zeros" or kind in ("bool", "object"):
            o("read:the dtype is the one given", mm.lifted_eq(x.dt.tp, data.dt.tp) and x.dt.record == data.dt.record and not x.dt.ref, info)
        else:
            o("read:the dtype is the one given", x.dt is data.dt or x.dt.root is data.dt.root and x.dt.record == data.dt.record, info)
        # the elements
        t = [y for y in x.term[1:] if y not in ("1d", "2d", "stripped")] if x.term[0] == "data" else list(x.term[1:])
        if x.term[0] == "zeros":
            nothing = z3.Or(mm.expr(data.size_) == 0, data.dt.chars == 0) if text else mm.expr(data.size_) == 0
            o("read:the elements are those given", SBool(nothing) if x.term[1] == "shape" else False, info)
        elif x.term[0] == "data":
            if isinstance(data.shape_, tuple):
                t = [y for y in t if y != "T"]
            o("read:the elements are those given, in their order", not t, info)
        else:
            o("read:the elements are those given", False, info)
        o("write:the data is not changed", before == (data.shape_, data.dt, data.term) or before[0] is data.shape_ and before[1] is data.dt and before[2] is data.term)

    return go


def shapes(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and SBool(z3.And(*[mm.expr(x) == mm.expr(y) for x, y in zip(a, b)], z3.BoolVal(True)))
    return isinstance(a, mm.ShapeN) and isinstance(b, mm.ShapeN) and a.key == b.key


def procedures(tier):
    out = []
    for kind, c in mm.matrix():
        if kind in ("void",) or (kind, c) == ("object", "scalar"):
            continue
        out.append((f"write and read {kind} {c}", round_trip(kind, c), {"max_paths": 20000, "max_s": 300}))
    return sorted(out, key=lambda p: -any(x in p[0] for x in ("str", "bytes")))
