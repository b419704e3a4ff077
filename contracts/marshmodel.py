"""Contracts of NumpyScalarArrayMarshaller.write and write_metadata over
contracts of NumPy arrays and of h5py's Groups and Datasets.

The data is an arbitrary array or scalar of each NumPy type and container, of
any number of dimensions, any lengths, any dtype details; the options are
arbitrary values that C04 allows; whatever is stored under the name before is
arbitrary.  C15, C17, C18 and C22 select their obligations.

Ghost state: where an array comes from (``term``: operations applied to the
data given), whose memory it uses (``owner``), what is stored under the name.
"""
import ast

import h5py
import numpy as np

from pyvc.engine import z3, FocusSeq, Idx, Lift, Members, Model, Opaque, PathEnd, SBool, SInt, Sym, Unsupported, current

TRUSTED = [
    "NumPy: T, atleast_2d, view, ascontiguousarray, astype, zeros and the scalar types do to shape, size and memory sharing what they document",
    "h5py: create_dataset stores exactly the array given with exactly the filters given, refuses filters for scalars, raises if the name "
    "exists; the filter attributes of a Dataset tell its filters; assigning to the whole of a Dataset of the same dtype and shape replaces "
    "exactly its contents",
    "options hold values C04 allows; encode_complex, convert_numpy_str_to_uint16/32, escape_path and set_attributes_all by their contracts "
    "(C10, C11, C01, C14)",
]

# the MATLAB class that fits each type (specification, from the documentation)
MATLAB = {
    np.bool_: "logical", np.uint8: "uint8", np.uint16: "uint16", np.uint32: "uint32", np.uint64: "uint64", np.int8: "int8", np.int16: "int16",
    np.int32: "int32", np.int64: "int64", np.float32: "single", np.float64: "double", np.complex64: "single", np.complex128: "double",
    np.bytes_: "char", np.str_: "char", np.object_: "cell",
}
# types that most of the code treats the same way are one unknown type
GROUPS = {
    "numbers": (np.uint8, np.uint16, np.uint32, np.uint64, np.int8, np.int16, np.int32, np.int64, np.float32, np.float64),
    "complex": (np.complex64, np.complex128), "others": (np.float16, np.longdouble, np.datetime64),
    "bool": (np.bool_,), "bytes": (np.bytes_,), "str": (np.str_,), "object": (np.object_,), "void": (np.void,), "struct": (np.void,),
}


class Text(Model):
    """A str known only by how it starts; digits follow."""

    def __init__(self, start):
        self.start = start

    def __repr__(self):
        return f"<{self.start}...>"

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_type(self):
        return str

    def sym_bool(self):
        return True

    def sym_eq(self, o):
        if self is o:
            return True
        if isinstance(o, str) and not o.startswith(self.start[:4]):
            return False
        raise Unsupported("comparison of a text")

    def replace(self, a, b):
        if a not in self.start and a.strip("0123456789") == a:  # digits follow the start
            return self
        raise Unsupported("replace in a text")

    def startswith(self, x):
        if isinstance(x, tuple):
            return any(self.startswith(y) for y in x)
        if self.start.startswith(x):
            return True
        if not x.startswith(self.start):
            return False
        raise Unsupported("start of a text")

    def sym_getitem(self, i):
        if isinstance(i, slice) and i.start in (None, 0) and isinstance(i.stop, int) and 0 <= i.stop <= len(self.start):
            return self.start[: i.stop]
        raise Unsupported("part of a text")

    def sym_binop(self, op, o, refl):
        return Text("") if refl else self

    def sym_contains(self, x):
        if x == "\\x00":
            return False
        raise Unsupported("text")

    def sym_getattr(self, n):
        if n in ("replace", "startswith"):
            return getattr(self, n)
        raise Unsupported(f"attribute {n} of a text")


class DtText(Model):
    def __init__(self, dt):
        self.dt = dt

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_contains(self, x):
        if x == "\\x00":
            return self.dt.null
        raise Unsupported("text of a dtype")


class Char(Model):
    """An arbitrary character of a name."""

    def __init__(self, key):
        self.key = key

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def encode(self, *a):
        if a != ("ascii",):
            raise Unsupported("encoding of a character")
        if self.key.ascii is None:
            self.key.ascii = current().choose(2, "characters that are not ASCII") == 0
        if not self.key.ascii:
            raise UnicodeEncodeError("ascii", "", 0, 1, "ordinal not in range(128)")
        return CharBytes(self.key)


class CharBytes(Model):
    def __init__(self, key):
        self.key = key


class CharArr(Model):
    """The characters of a name as an array of S1."""

    def __init__(self, key):
        self.key = key


class Key(Model):
    """Name of a field, as it is or escaped."""

    def __init__(self, label, raw=None):
        self.label, self.raw = label, raw
        self.esc = self.ascii = None

    def __repr__(self):
        return f"<{self.label}>"

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_type(self):
        return str

    def sym_eq(self, o):
        if self is o:
            return True
        if isinstance(o, Key) and (self.raw is None) == (o.raw is None):
            return False  # names of fields differ, and so do escaped ones
        raise Unsupported("comparison of names")

    def sym_iter(self):
        return FocusSeq([(True, Char(self))])

    def escaped(self):
        if self.esc is None:
            self.esc = Key(f"escaped {self.label}", self)
        return self.esc

    def encode(self, *a):
        return Char(self).encode(*a)


class FieldShape(Model):
    def __init__(self, w):
        self.w = w

    def sym_all(self):
        return self.w.ctx.bool("field with elements")


class NamesArr(Model):
    """Array of names in the form that MATLAB has them."""

    def __init__(self, n):
        self.n, self.items = n, []

    def sym_setitem(self, i, v):
        if not isinstance(i, Idx) and not (i == 0 and self.n in (1, (1,))):
            raise Unsupported("index of names")
        self.items.append((i.elem if isinstance(i, Idx) else None, v))


class Count(Model):
    def __init__(self, seq):
        self.seq = seq

    def sym_isinstance(self, cls):
        return issubclass(int, cls)


class Elem(Model):
    """An arbitrary element of an array, or its first."""

    def __init__(self, arr, first=False):
        self.arr, self.first = arr, first

    def sym_getitem(self, k):
        if isinstance(k, Key):
            return FieldVal(self, k)
        raise Unsupported("part of an element")


class FieldVal(Model):
    def __init__(self, elem, key):
        self.elem, self.key = elem, key


class Flat(FocusSeq):
    """The elements of an array in order."""

    def __init__(self, arr):
        self.arr = arr
        one = isinstance(arr.size_, int)
        if one and arr.size_ != 1:
            raise Unsupported("elements of a constant array")
        super().__init__([(not one, Elem(arr))])

    def sym_getitem(self, i):
        if i == 0:
            return Elem(self.arr, True)
        raise Unsupported("element")

    def sym_setitem(self, i, v):
        self.arr.sym_setitem(i, v)


class Cells:
    """What the code put into an array of objects it made."""

    def __init__(self):
        self.fills = []


class Dt(Model):
    def __init__(self, w, tp, fields=None, itemsize=None, hasobject=False, null=False, hz=False, ref=False, old=None):
        self.w, self.tp, self.fields_, self.ref, self.null, self.hz, self.hasobject_ = w, tp, fields, ref, null, hz, hasobject
        self.itemsize_ = itemsize
        self.native = None

    def __repr__(self):
        return f"<dtype {self.tp}>"

    def sym_isinstance(self, cls):
        return cls in (np.dtype, object)

    def sym_eq(self, o):
        if self is o:
            return True
        if isinstance(o, OldDt):
            return o.sym_eq(self)
        if isinstance(o, Dt):
            if self.tp is not o.tp and not self.w.it.truth(self.w.it.eq(self.tp, o.tp)):
                return False
            return self.w.ctx.bool("equal dtypes")
        if isinstance(o, (np.dtype, type, str)):
            if self.sized() and self.fields_ is None:
                return self.of_type(lambda t: bool(np.dtype(t) == np.dtype(o)))
        raise Unsupported("comparison of dtypes")

    def of_type(self, f):
        return self.tp.map(f) if isinstance(self.tp, Lift) else f(self.tp)

    def sized(self):
        return self.tp not in (np.void, np.bytes_, np.str_)

    def sym_str(self):
        return DtText(self) if self.fields_ is not None else (
            self.of_type(lambda t: np.dtype(t).str) if self.sized() else Text("|V" if self.tp is np.void else np.dtype(self.tp).str[:2]))

    def sym_getattr(self, n):
        if n == "type":
            return self.tp
        if n == "fields":
            return self.fields_
        if n == "names":
            return None if self.fields_ is None else self.fields_.names()
        if n == "hasobject":
            return self.hasobject_
        if n in ("kind", "char"):
            return self.of_type(lambda t: getattr(np.dtype(t), n))
        if n == "name":
            if self.tp in (np.bytes_, np.str_, np.void):
                return Text({np.bytes_: "bytes", np.str_: "str", np.void: "void"}[self.tp])
            return self.of_type(lambda t: np.dtype(t).name)
        if n == "itemsize":
            if self.itemsize_ is None:
                if self.sized():
                    self.itemsize_ = self.of_type(lambda t: np.dtype(t).itemsize)
                else:
                    self.itemsize_ = self.w.nonneg("itemsize")
            return self.itemsize_
        if n in ("shape",):
            return ()
        if n == "base":
            return self
        if n == "subdtype":
            return None
        if n == "isnative":
            if self.native is None:
                self.native = self.w.ctx.bool("native") if self.sized() and self.fields_ is None else True
            return self.native
        if n == "byteorder":
            return "|" if not self.sized() else "=" if self.w.it.truth(self.sym_getattr("isnative")) else ">"
        if n == "newbyteorder":
            return self.newbyteorder
        raise Unsupported(f"attribute {n} of a dtype")

    def newbyteorder(self, *a):
        return Dt(self.w, self.tp)


class OldDt(Model):
    """dtype of what was stored before."""

    def __init__(self, dset):
        self.dset, self.same = dset, None

    def sym_eq(self, o):
        if self.same is None:
            self.same = self.dset.w.ctx.bool("stored with the same dtype")
            self.of = o
        if o is not self.of:
            raise Unsupported("comparison with another dtype")
        return self.same

    def sym_getattr(self, n):
        if self.same is not None and self.dset.contents is not None and self.dset.w.ctx.must(self.same):
            return self.dset.contents.dt.sym_getattr(n)
        raise Unsupported("dtype of what was stored")


class OldSize(Model):
    """Size or number of dimensions of what was stored before."""

    def __init__(self, dset):
        self.dset = dset

    def sym_isinstance(self, cls):
        return issubclass(int, cls)

    def sym_eq(self, o):
        c = self.dset.w.ctx
        b = c.bool("as large as before")
        s = self.dset.sh.same
        if s is not None:
            c.assume(z3.Implies(s.e, b.e))
        return b


class OldShape(Model):
    def __init__(self, dset):
        self.dset, self.same = dset, None

    def sym_isinstance(self, cls):
        return issubclass(tuple, cls)

    def sym_eq(self, o):
        if self.same is None:
            self.same = self.dset.w.ctx.bool("stored with the same shape")
            self.of = o
        if not same_shape(o, self.of):
            raise Unsupported("comparison with another shape")
        return self.same


def same_shape(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(x is y or (isinstance(x, int) and x == y) for x, y in zip(a, b))
    if isinstance(a, ShapeN) and isinstance(b, ShapeN):
        return a.key == b.key
    return a is b


class ShapeN(Model):
    """A shape of two or more lengths."""

    def __init__(self, w, key):
        self.w, self.key = w, key  # (tag, reversed)

    def sym_isinstance(self, cls):
        return issubclass(tuple, cls)

    def sym_bool(self):
        return True

    def sym_len(self):
        return self.w.ndim(self.key[0])

    def sym_eq(self, o):
        if isinstance(o, tuple):
            return False if len(o) < 2 else self.unsup()
        if isinstance(o, ShapeN):
            if o.key == self.key:
                return True
            return self.w.ctx.bool("equal shapes")
        if isinstance(o, OldShape):
            return o.sym_eq(self)
        return self.unsup()

    def unsup(self):
        raise Unsupported("comparison of shapes")

    def sym_getitem(self, i):
        if isinstance(i, slice) and i == slice(None, None, -1):
            return ShapeN(self.w, (self.key[0], not self.key[1]))
        if i == -1 or i == 0:
            return self.w.length(self.key[0], (i == -1) != self.key[1])
        raise Unsupported("part of a shape")

    def sym_all(self):
        return self.w.ctx.branch(self.w.size_of[self.key[0]].e != 0)

    def sym_tuple(self):
        return self

    def sym_list(self):
        return ShapeList(self)

    def sym_iter(self):
        raise Unsupported("iteration of a shape")


class ShapeList(Model):
    def __init__(self, s):
        self.s = s


class Cond(Model):
    """Elementwise comparison."""

    def __init__(self, w):
        self.w = w


class Arr(Model):
    def __init__(self, w, dt, shape, size, term, owner, pytype=np.ndarray, nbytes=None):
        self.w, self.dt, self.shape_, self.size_, self.term, self.owner, self.pytype = w, dt, shape, size, term, owner, pytype
        self.nbytes_ = nbytes

    def __repr__(self):
        return f"<array {self.term} {self.dt} {self.shape_}>"

    # -- the contract of ndarray
    def sym_isinstance(self, cls):
        return self.w.sub(self.pytype, cls)

    def sym_type(self):
        return self.pytype

    def like(self, term=None, shape=None, dt=None, owner=None, size=None, pytype=None, nbytes=None):
        return Arr(self.w, dt or self.dt, self.shape_ if shape is None else shape, self.size_ if size is None else size,
                   self.term if term is None else term, owner or self.owner, pytype or self.pytype,
                   nbytes if nbytes is not None else self.nbytes_ if dt is None and size is None else None)

    def ndims(self):
        return len(self.shape_) if isinstance(self.shape_, tuple) else 2

    def nbytes(self):
        if self.nbytes_ is None:
            n = self.w.nonneg("nbytes")
            item = self.dt.sym_getattr("itemsize")
            z = n.e == 0
            self.w.ctx.assume(z == z3.Or(expr(self.size_) == 0, False if isinstance(item, Lift) else expr(item) == 0))
            self.nbytes_ = n
        return self.nbytes_

    def sym_getattr(self, n):
        if n == "dtype":
            return self.dt
        if n == "shape":
            self.w.last_shape = (self.shape_, self.size_)
            return self.shape_
        if n == "ndim":
            return self.ndims() if isinstance(self.shape_, tuple) else self.shape_.sym_len()
        if n == "size":
            return self.size_
        if n == "nbytes":
            return self.nbytes()
        if n == "itemsize":
            return self.dt.sym_getattr("itemsize")
        if n == "T":
            return self.transpose()
        if n == "flat":
            return Flat(self)
        if n == "ravel" and isinstance(self.term[0], Cells) and len(self.term) == 1:
            return self.ravel
        if n in ("transpose", "view", "astype", "copy", "fill", "sort", "resize", "setflags", "put", "itemset", "byteswap"):
            return getattr(self, n)
        raise Unsupported(f"attribute {n} of an array")

    def ravel(self):
        return self.like(self.term + ("flat",))

    def transpose(self, *a):
        if a:
            raise Unsupported("transpose of some axes")
        k = self.ndims()
        if k < 2:
            return self.like()
        shape = self.shape_[::-1] if isinstance(self.shape_, tuple) else self.shape_.sym_getitem(slice(None, None, -1))
        t = self.term[:-1] if self.term[-1] == "T" else self.term + ("T",)
        return self.like(t, shape)

    def view(self, dt=None, tp=None):
        if isinstance(dt, type) and issubclass(dt, np.ndarray) and tp is None:
            return self.like(pytype=dt)
        if isinstance(dt, Void) and tp in (None, np.ndarray):
            return self.like(dt=dt.dt, pytype=tp or self.pytype, nbytes=self.nbytes_)
        if dt is np.uint8 and tp is None and self.dt.tp is np.bytes_:
            return self.w.codes(self, "bytes", np.uint8, self.owner)
        raise Unsupported("view of an array")

    def astype(self, dt, **k):
        if k or not isinstance(dt, type):
            raise Unsupported("astype")
        return self.like(self.term + (("astype", dt),), dt=Dt(self.w, dt), owner="new")

    def copy(self, *a, **k):
        return self.like(owner="new")

    def sym_compare(self, op, o, *a):
        return Cond(self.w)

    def sym_len(self):
        if self.pytype in (np.str_, np.bytes_):
            n = self.w.nonneg("length")
            return n
        if not self.ndims():
            raise TypeError("len() of unsized object")
        return self.shape_[0] if isinstance(self.shape_, tuple) else self.shape_.sym_getitem(0)

    def sym_getitem(self, i):
        if isinstance(i, Key):
            return self.like(self.term + (i,), shape=FieldShape(self.w), dt=Dt(self.w, np.float64), size=1)
        if i == () or i is Ellipsis:
            return self
        raise Unsupported("part of an array")

    # -- frame: the caller's memory is never written (C22)
    def changed(self, how):
        if self.owner == "caller":
            self.w.oblige("C22", "write:the data given is not changed", False, how)
        raise Unsupported(f"{how} of an array")

    def sym_setitem(self, i, v):
        if isinstance(self.term[0], Cells) and isinstance(v, FieldVal) and self.term[1:] == ("flat",):
            if not (i.elem is v.elem if isinstance(i, Idx) else isinstance(i, int) and i == 0 and v.elem.arr.size_ == 1):
                raise Unsupported("element of another place")
            self.term[0].fills.append(v)
            return
        self.changed("assignment to elements")

    def sym_setattr(self, n, v):
        self.changed(f"assignment to {n}")

    def fill(self, *a):
        self.changed("fill")

    def sort(self, *a, **k):
        self.changed("sort")

    def resize(self, *a, **k):
        self.changed("resize")

    def setflags(self, *a, **k):
        self.changed("setflags")

    def put(self, *a, **k):
        self.changed("put")

    def itemset(self, *a):
        self.changed("itemset")

    def byteswap(self, inplace=False):
        if inplace:
            self.changed("byteswap")
        return self.like(self.term + ("byteswap",), owner="new")


class Void(Model):
    def __init__(self, dt):
        self.dt = dt


class Fields(Model):
    """At least one field."""

    def __init__(self, w):
        self.w = w
        self.focus = Key("a field")
        other = (True, Key("other fields"))
        self.ks = [(False, self.focus)]
        self.ks = w.ctx.pick([self.ks, [*self.ks, other], [other, *self.ks]], "fields")

    def names(self):
        return FocusSeq(self.ks, tuple)

    def sym_bool(self):
        return True

    def sym_len(self):
        n = self.w.nonneg("fields")
        self.w.ctx.assume(n.e >= 1)
        return n


def expr(x):
    return x.e if isinstance(x, Sym) else z3.IntVal(x)


class Enum(Model):
    """One of some strings."""

    def __init__(self, w, values, label, e=None):
        self.w, self.values = w, tuple(values)
        if e is None:
            e = w.ctx.int(label).e
            w.ctx.assume(e >= 0)
            w.ctx.assume(e < len(self.values))
        self.e = e

    def __repr__(self):
        return f"<{self.e}>"

    def sym_isinstance(self, cls):
        return False if not issubclass(str, cls) else True if None not in self.values else self.w.it.not_(self.sym_eq(None))

    def sym_type(self):
        return str

    def sym_bool(self):
        return True if None not in self.values else self.w.it.not_(self.sym_eq(None))

    def sym_eq(self, o):
        if isinstance(o, Enum):
            return SBool(z3.Or(*[z3.And(self.e == i, o.e == o.values.index(x)) for i, x in enumerate(self.values) if x in o.values]))
        if isinstance(o, str) or o is None:
            return SBool(self.e == self.values.index(o)) if o in self.values else False
        return False

    def sym_is(self, o):
        return self.sym_eq(o) if o is None else self is o


class MaybeInt(Model):
    """The level of the filter of a Dataset, None where there is none."""

    def __init__(self, w, alg):
        self.w, self.alg, self.i = w, alg, w.ctx.int("level before")
        self.none = SBool(z3.Or(alg.sym_eq(None).e, alg.sym_eq("lzf").e))

    def sym_eq(self, o):
        if o is None:
            return self.none
        if isinstance(o, (SInt, int)) and not isinstance(o, bool):
            return SBool(z3.And(z3.Not(self.none.e), self.i.e == expr(o)))
        if isinstance(o, MaybeInt):
            return SBool(z3.Or(z3.And(self.none.e, o.none.e), z3.And(z3.Not(self.none.e), z3.Not(o.none.e), self.i.e == o.i.e)))
        return False

    def sym_is(self, o):
        return self.none if o is None else self is o

    def sym_bool(self):
        return SBool(z3.And(z3.Not(self.none.e), self.i.e != 0))


ALGORITHMS = ("gzip", "lzf", "szip")


class Dset(Model):
    def __init__(self, w, old, contents=None, compression=None, opts=None, shuffle=False, fletcher=False):
        self.w, self.old, self.contents = w, old, contents
        self.f = dict(compression=compression, compression_opts=opts, shuffle=shuffle, fletcher32=fletcher)
        if old:
            self.f = dict.fromkeys(self.f, ...)
            self.dt, self.sh = OldDt(self), OldShape(self)
        else:
            self.dt, self.sh = contents.dt, contents.shape_

    def __repr__(self):
        return f"<{'old' if self.old else 'new'} dataset {self.f} {self.contents}>"

    def sym_isinstance(self, cls):
        return issubclass(h5py.Dataset, cls)

    def sym_getattr(self, n):
        if n in self.f:
            return self.filter(n)
        if n == "dtype":
            return self.dt
        if n == "shape":
            return self.sh
        if n == "size" and self.old:
            return OldSize(self)
        if n == "ndim" and self.old:
            return OldSize(self)
        if n == "ref":
            return Opaque("reference")
        if n == "name":
            return Text("/")
        raise Unsupported(f"attribute {n} of a Dataset")

    def filter(self, n):
        c = self.w.ctx
        if self.f[n] is ...:
            if n == "compression":
                v = Enum(self.w, (None,) + ALGORITHMS, "algorithm before")
            elif n == "compression_opts":
                z = self.filter("compression")
                v = MaybeInt(self.w, z)
            else:
                v = c.bool(n + " before")
            self.f[n] = v
        return self.f[n]

    def sym_setitem(self, i, v):
        if not (i is Ellipsis or i == ()):
            raise Unsupported("assignment to a part of a Dataset")
        if self.old:
            ok = [x.same if x.same is not None and (x.of is y or same_shape(x.of, y)) else False for x, y in ((self.dt, v.dt), (self.sh, v.shape_))] if isinstance(v, Arr) else [False]
            self.w.oblige(self.w.tag, "write:a Dataset is overwritten only by data of its dtype and shape", both(*ok), repr(v))
        self.contents = v


class GroupName(Model):
    def __init__(self, g):
        self.g = g

    def sym_isinstance(self, cls):
        return issubclass(str, cls)


class NameSet(Model):
    """Escaped names of all fields, of those in the Group before, or others."""

    def __init__(self, parts, grp=None):
        self.parts, self.grp = list(parts), grp  # of those only the ones that grp had

    def sym_iter(self):
        return FocusSeq([(g, k) for g, k in self.parts if self.grp is None or self.grp.has(k)])

    def difference(self, *os):
        out = self.parts
        for o in os:
            o = current().interp.call(set, o)
            if not isinstance(o, NameSet) or o.grp is not None:
                raise Unsupported("difference of names")
            out = [p for p in out if not any(p[1] is k for _, k in o.parts)]
        return NameSet(out, self.grp)

    def sym_binop(self, op, o, refl):
        if op == "Sub" and not refl and isinstance(o, NameSet):
            return self.difference(o)
        return NotImplemented

    def sym_contains(self, k):
        return any(k is x for _, x in self.parts) and (self.grp is None or self.grp.has(k))


class SGrp(Model):
    """The Group of a structure, new or there before with arbitrary entries."""

    def __init__(self, w, old):
        self.w, self.old = w, old
        self.leftover = Key("something else", self) if old else None
        self.there = {}
        self.name_ = GroupName(self)
        self.deleted, self.written = [], []

    def sym_isinstance(self, cls):
        return issubclass(h5py.Group, cls)

    def has(self, k):
        """Whether there was an entry of the name before."""
        if k is self.leftover:
            return True
        if not self.old or k.raw is None:
            return False
        if k not in self.there:
            self.there[k] = self.w.ctx.choose(2, f"{k.label} was there") == 1
        return self.there[k]

    def names(self):
        if not self.old:
            return []
        f = self.w.data.dt.fields_
        ks = [] if f is None else [(g, k.escaped()) for g, k in f.ks]
        return [(True, self.leftover)] + ks

    def sym_getattr(self, n):
        if n == "name":
            return self.name_
        if n == "keys":
            return self.sym_set
        if n == "ref":
            return Opaque("reference")
        raise Unsupported(f"attribute {n} of a Group")

    def sym_iter(self):
        return self.sym_set().sym_iter()

    def sym_set(self):
        return NameSet(self.names(), self)

    def sym_contains(self, k):
        return self.has(k) and k not in self.deleted

    def sym_delitem(self, k):
        if not isinstance(k, Key) or not self.has(k):
            raise KeyError("no such entry")
        self.deleted.append(k)


class FieldObj(Model):
    """What the entry of a field is after writing it."""

    def __init__(self, grp, key):
        self.grp, self.key = grp, key


class NodeName(Model):
    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_type(self):
        return str

    def sym_bool(self):
        return True

    def sym_eq(self, o):
        if self is o:
            return True
        raise Unsupported("comparison of the name")


class Grp(Model):
    """The Group written to; only the entry of the name given may change."""

    def __init__(self, w):
        self.w = w
        self.log = []

    def mine(self, k):
        if k is not self.w.name:
            raise Unsupported("another entry of the Group")

    def sym_isinstance(self, cls):
        return issubclass(h5py.Group, cls)

    def sym_getitem(self, k):
        self.mine(k)
        if self.w.node is None:
            raise KeyError("no such entry")
        return self.w.node

    def get(self, k, default=None):
        self.mine(k)
        return default if self.w.node is None else self.w.node

    def sym_contains(self, k):
        self.mine(k)
        return self.w.node is not None

    def sym_delitem(self, k):
        self.mine(k)
        if self.w.node is None:
            raise KeyError("no such entry")
        self.w.node = None
        self.log.append("del")

    def create_group(self, k):
        self.mine(k)
        if self.w.node is not None:
            raise ValueError("name already exists")
        self.w.node = SGrp(self.w, False)
        self.log.append("create")
        return self.w.node

    def create_dataset(self, name, shape=None, dtype=None, data=None, chunks=None, compression=None, compression_opts=None, shuffle=None,
                       fletcher32=None, **more):
        self.mine(name)
        if more or shape is not None or dtype is not None or not isinstance(data, Arr):
            raise Unsupported("form of create_dataset")
        if self.w.node is not None:
            raise ValueError("name already exists")
        it = self.w.ctx.interp
        sh, fl = (x if x is not None else False for x in (shuffle, fletcher32))
        if data.ndims() == 0:
            sh, fl = it.truth(sh), it.truth(fl)
        if data.ndims() == 0 and (compression is not None or sh or fl or chunks is not None):
            raise TypeError("Scalar datasets don't support chunk/filter options")
        if compression is None:
            compression_opts = None
        elif compression_opts is not None and not isinstance(compression, str):
            if it.truth(it.compare(ast.Eq(), compression, "lzf")):
                raise ValueError("LZF compression filter accepts no options")
        elif compression_opts is not None:
            if compression == "lzf":
                raise ValueError("LZF compression filter accepts no options")
        elif it.truth(it.compare(ast.Eq(), compression, "gzip")):
            compression_opts = 4
        self.w.node = Dset(self.w, False, data, compression, compression_opts, sh, fl)
        self.log.append("create")
        return self.w.node


class Options(Model):
    BOOLS = ("store_python_metadata", "matlab_compatible", "delete_unused_variables", "structured_numpy_ndarray_as_struct", "make_atleast_2d",
             "convert_numpy_bytes_to_utf16", "convert_numpy_str_to_utf16", "convert_bools_to_uint8", "reverse_dimension_order", "structs_as_dicts",
             "store_shape_for_empty", "compress", "shuffle_filter", "compressed_fletcher32_filter", "uncompressed_fletcher32_filter")
    IMPLIED = ("structured_numpy_ndarray_as_struct", "make_atleast_2d", "convert_numpy_bytes_to_utf16", "convert_numpy_str_to_utf16",
               "convert_bools_to_uint8", "reverse_dimension_order", "store_shape_for_empty")

    def __init__(self, w, fixed):
        self.w, self.v = w, dict(fixed)

    def sym_getattr(self, n):
        if n not in self.v:
            c = self.w.ctx
            if n == "gzip_compression_level":
                x = c.int(n)
                c.assume(x.e >= 0)
                c.assume(x.e <= 9)
                v = x
            elif n == "compress_size_threshold":
                v = c.int(n)
                c.assume(v.e >= 0)
            elif n == "compression_algorithm":
                v = Enum(self.w, ALGORITHMS, n)
            elif n == "action_for_matlab_incompatible":
                v = c.pick(["ignore", "discard", "error"], n)
            elif n == "oned_as":
                v = c.pick(["row", "column"], n)
            elif n == "complex_names":
                v = (Key("real"), Key("imag"))
            elif n == "matlab_compatible":
                v = c.choose(2, n) == 1
            elif n in self.IMPLIED:
                v = True if self.sym_getattr("matlab_compatible") else c.choose(2, n) == 1
            elif n in self.BOOLS:
                v = c.bool(n)
            else:
                raise Unsupported(f"option {n}")
            self.v[n] = v
        return self.v[n]


class LowLevel(Model):
    def __init__(self, w):
        self.w = w

    def sym_getattr(self, n):
        if n == "options":
            return self.w.options
        if n == "write_object_array":
            return self.write_object_array
        if n == "write_data":
            return self.write_data
        raise Unsupported(f"attribute {n} of the file")

    def write_data(self, grp, name, data, type_string=None):
        """Contract: the entry becomes the data, or is left out where it is
        discarded (C18)."""
        if not isinstance(grp, SGrp):
            raise Unsupported("write_data")
        f = self.w.data.dt.fields_
        other = f is None or name is not f.focus.esc  # the field looked at is arbitrary
        r = FieldObj(grp, name) if other or self.w.tag != "C18" or self.w.ctx.choose(2, "a field is discarded") == 0 else None
        grp.written.append((name, data, r))
        return r

    def write_object_array(self, data):
        return data.like(data.term + ("references",), dt=Dt(self.w, np.object_, ref=True, hasobject=True), owner="new", pytype=np.ndarray)


class World:
    def __init__(self, ctx, tag, tp, container, old, fixed=()):
        self.ctx, self.tag, self.it = ctx, tag, ctx.interp
        self.size_of, self.ndims_, self.lengths = {}, {}, {}
        self.options = Options(self, fixed)
        self.f, self.grp, self.name = LowLevel(self), Grp(self), NodeName()
        self.sets, self.none = [], {}
        self.last_shape = (None, None)
        self.data = self.make(tp, container)
        if old == "dataset":
            self.node = Dset(self, True)
        else:
            self.node = SGrp(self, True) if old == "group" else None
        self.before = self.node
        self.it.hooks["merge_bools"] = True
        self.models()

    def segment_empty(self, x):
        x = x[1] if isinstance(x, tuple) and len(x) == 2 else x
        if isinstance(x, Elem):
            return self.it.truth(eq(self, x.arr.size_, 0))
        if isinstance(x, Char):
            return False
        if isinstance(x, Key) and isinstance(x.raw, SGrp):
            x = x.raw
        k = x
        if isinstance(k, Key):
            return False
        if k not in self.none:
            self.none[k] = self.ctx.choose(2, "none") == 1
        return self.none[k]

    # -- symbols
    def oblige(self, tag, name, cond, detail=""):
        if tag == self.tag:
            self.ctx.oblige(name, cond, detail)

    def nonneg(self, n):
        x = self.ctx.int(n)
        self.ctx.assume(x.e >= 0)
        return x

    @staticmethod
    def sub(t, cls):
        return t.sym_issubclass(cls) if isinstance(t, Lift) else issubclass(t, cls)

    def ndim(self, tag):
        if tag not in self.ndims_:
            n = self.nonneg("ndim")
            self.ctx.assume(n.e >= 2)
            self.ndims_[tag] = n
        return self.ndims_[tag]

    def length(self, tag, last):
        if (tag, last) not in self.lengths:
            self.lengths[tag, last] = self.nonneg("length")
        return self.lengths[tag, last]

    def make(self, kind, container):
        c = self.ctx
        types = GROUPS[kind] if (kind, container) != ("others", "scalar") else (np.float16,)
        tp = Lift(Members(c, types, "type")) if len(types) > 1 else types[0]
        if kind == "struct":
            dt = Dt(self, np.void, Fields(self), hasobject=c.bool("objects in it"), null=c.bool("nulls in names"),
                    hz=c.bool("zero shape in it"))
            pytype = np.void
        else:
            dt = Dt(self, tp, hasobject=tp is np.object_)
            pytype = tp
        if container == "scalar":
            return Arr(self, dt, (), 1, ("data",), "caller", pytype)
        pytype = {"ndarray": np.ndarray, "matrix": np.matrix, "chararray": np.chararray, "recarray": np.recarray}[container]
        k = 2 if container == "matrix" else c.choose(3, "dimensions")
        if container == "chararray" and k == 0:
            raise PathEnd
        if k == 0:
            return Arr(self, dt, (), 1, ("data",), "caller", pytype)
        shape, size = self.shape(k)
        return Arr(self, dt, shape, size, ("data",), "caller", pytype)

    def shape(self, k):
        size = self.nonneg("size")
        if k == 2:
            self.size_of["data"] = size
            return ShapeN(self, ("data", False)), size
        ls = tuple(self.nonneg("length") for _ in range(k))
        self.ctx.assume((size.e == 0) == z3.Or(*[x.e == 0 for x in ls]))
        if k == 1:
            self.ctx.assume(size.e == ls[0].e)
        return ls, size

    def codes(self, a, what, tp, owner="new"):
        """Text as code units along the last axis; at least 1d."""
        size = self.nonneg("code units")
        if not self.ctx.must(expr(a.nbytes()) == 0):
            self.ctx.assume((size.e == 0) == (expr(a.nbytes()) == 0))
        n = self.nonneg("last length")
        if isinstance(a.shape_, tuple):
            shape = a.shape_[:-1] + (n,)
            if a.ndims() <= 1:
                self.ctx.assume(n.e == size.e)
        else:
            shape = ShapeN(self, (f"{a.shape_.key[0]} {what}", False))
            self.size_of[shape.key[0]] = size
        return a.like(a.term + (what,), shape=shape, dt=Dt(self, tp), owner=owner, size=size, pytype=np.ndarray)

    def models(self):
        m, it = self.it.models, self.it
        w = self

        def atleast(k):
            def f(a):
                if not isinstance(a, Arr):
                    raise Unsupported("atleast")
                n = a.ndims()
                if n >= k:
                    return a
                shape = ((1,) * k if n == 0 else (1, a.shape_[0]))[:k]
                return a.like(a.term + ("2d",) if k == 2 else a.term + ("1d",), shape=shape, pytype=a.pytype if w.sub(a.pytype, np.ndarray) else np.ndarray)

            return f

        def cast(tp):
            def f(a=0, *more):
                if isinstance(a, Arr):
                    return a.like(a.term + (("as", tp),), dt=Dt(w, tp), owner="new")
                if isinstance(a, ShapeN):
                    return Arr(w, Dt(w, tp), (a.sym_len(),), a.sym_len(), ("shape", a), "new")
                if isinstance(a, tuple) and not more:
                    return Arr(w, Dt(w, tp), (len(a),), len(a), ("shape", a), "new")
                if isinstance(a, (SInt, Model)):
                    return Opaque("number") if isinstance(a, Model) else a
                return tp(a, *more)

            return f

        def zeros(shape, dtype=float, **k):
            if (dtype in ("object", object)) and isinstance(shape, (tuple, ShapeN)) and (shape is w.last_shape[0]):
                return Arr(w, Dt(w, np.object_, hasobject=True), shape, w.last_shape[1], (Cells(),), "new")
            if isinstance(shape, tuple) and all(isinstance(x, int) for x in shape) and isinstance(dtype, type):
                n = 1
                for x in shape:
                    n *= x
                return Arr(w, Dt(w, dtype), shape, n, ("zeros", shape), "new")
            raise Unsupported("zeros")

        def array(a, *x, **k):
            if isinstance(a, FocusSeq) and k == {"dtype": "S1"} and not x and all(isinstance(c, CharBytes) for _, c in a.elems) and a.elems:
                return CharArr(a.elems[0][1].key)
            if isinstance(a, Arr) and not x and not k:
                return a.like(owner="new", pytype=np.ndarray)
            raise Unsupported("array")

        def np_all(c):
            if isinstance(c, Cond):
                return w.ctx.choose(2, "all elements") == 0
            raise Unsupported("np.all")

        def iscomplexobj(a):
            if isinstance(a, Arr):
                return w.sub(a.dt.tp, np.complexfloating)
            raise Unsupported("iscomplexobj")

        def np_dtype(x, *a):
            if isinstance(x, tuple) and len(x) == 2 and x[0] is np.void and isinstance(x[1], Dt):
                return Void(x[1])
            if not a and isinstance(x, (str, type)):
                return np.dtype(x)
            raise Unsupported("np.dtype")

        def check_dtype(**k):
            if set(k) == {"ref"} and isinstance(k["ref"], Dt):
                return h5py.Reference if k["ref"].ref else None
            raise Unsupported("check_dtype")

        def prod(s):
            if s is w.last_shape[0] and s is not None:
                return w.last_shape[1]
            raise Unsupported("prod")

        m[np.atleast_2d], m[np.atleast_1d] = atleast(2), atleast(1)
        for tp in (np.uint8, np.uint16, np.uint32, np.uint64, np.int64, np.bool_):
            m[tp] = cast(tp)
        def empty(shape=None, dtype=None, **k):
            if isinstance(shape, Count) or isinstance(shape, tuple) and len(shape) == 1 and (isinstance(shape[0], Count) or isinstance(dtype, Opaque)):
                return NamesArr(shape)
            raise Unsupported(f"empty {shape}")

        def to_set(x=()):
            if isinstance(x, NameSet):
                return x
            if isinstance(x, FocusSeq):
                return NameSet(x.take())
            return it.bi_set(x)

        m[np.empty], m[set] = empty, to_set
        m[h5py.special_dtype] = lambda **k: Opaque("dtype of texts of any length")
        it.hooks["focus_len"] = Count
        it.hooks["segment_empty"] = self.segment_empty
        m[np.zeros], m[np.all], m[np.iscomplexobj], m[np.dtype], m[np.prod] = zeros, np_all, iscomplexobj, np_dtype, prod
        m[np.ascontiguousarray] = lambda a: a.like(shape=(1,) if a.ndims() == 0 else None, pytype=np.ndarray)
        m[np.asarray] = lambda a: a.like(pytype=np.ndarray)
        m[np.array], m[np.copy] = array, array
        m[np.transpose] = lambda a: a.transpose()
        m[np.shape] = lambda a: a.shape_
        m[np.ndim] = lambda a: a.sym_getattr("ndim")
        m[h5py.check_dtype] = check_dtype
        b = it.by_name

        def codes(what, tp, may_raise):
            def f(a):
                if may_raise and w.ctx.choose(2, "not representable") == 1:
                    raise UnicodeEncodeError("utf-16", "", 0, 1, "surrogates not allowed")
                if it.truth(it.compare(ast.Eq(), a.nbytes(), 0)):
                    return Arr(w, Dt(w, tp), (0,), 0, ("zeros", (0,)), "new")
                return w.codes(a, what, tp)

            return f

        b["convert_numpy_str_to_uint16"] = codes("utf16", np.uint16, True)
        b["convert_numpy_str_to_uint32"] = codes("utf32", np.uint32, False)
        b["encode_complex"] = lambda a, names: a.like(
            a.term + ("pairs",), dt=Dt(w, np.void, Fields(w), itemsize=a.dt.sym_getattr("itemsize"), null=w.ctx.bool("nulls in complex names")))
        b["does_dtype_have_a_zero_shape"] = lambda dt: dt.hz
        b["escape_path"] = lambda k: k.escaped()
        b["set_attributes_all"] = lambda target, attributes, discard_others=True: w.sets.append((target, attributes, discard_others))


def matlab_class(w):
    o = w.options
    if w.data.dt.fields_ is not None and o.sym_getattr("structured_numpy_ndarray_as_struct"):
        return "struct"
    return w.data.dt.of_type(MATLAB.get)


NO_FILTERS = dict(compress=False, uncompressed_fletcher32_filter=False)
FIXED = {"C18": {**NO_FILTERS, "matlab_compatible": True}, "C22": NO_FILTERS, "C15": NO_FILTERS}


def proc_write(tag, tp, container, old):
    def proc(ctx):
        from hdf5storage import Marshallers
        from hdf5storage.exceptions import TypeNotMatlabCompatibleError

        w = World(ctx, tag, tp, container, old, FIXED.get(tag, {}))
        it, o, opt = ctx.interp, w.oblige, w.options.sym_getattr
        m = Marshallers.NumpyScalarArrayMarshaller()
        type_string = None
        if tag == "C17":  # what write_metadata does is in the obligations of C15 and C18
            it.by_name["NumpyScalarArrayMarshaller.write_metadata"] = lambda self, f, dset, *a, **k: w.sets.append((dset, {}, True))
        e = r = None
        try:
            r = it.call(it.getattr(m, "write"), w.f, w.grp, w.name, w.data, type_string)
        except (Unsupported, PathEnd):
            raise
        except Exception as x:  # noqa: BLE001
            e = x
        cls = matlab_class(w) if opt("matlab_compatible") else None
        if opt("matlab_compatible") and cls is None:
            act = opt("action_for_matlab_incompatible")
            rejected = isinstance(e, TypeNotMatlabCompatibleError)
            nothing = e is None and r is None
            o("C18", f"write:data without a MATLAB class, action {act}",
              rejected if act == "error" else nothing if act == "discard" else e is None and r is not None, f"{e!r} {r!r}")
            if act != "ignore":
                o("C18", "write:rejected or discarded data changes nothing", w.node is w.before and not w.grp.log and not w.sets)
                o("C15", "write:rejected or discarded data changes nothing", w.node is w.before and not w.grp.log and not w.sets)
                ctx.cover("rejected")
                return
        if e is not None:
            if isinstance(e, (TypeError, ValueError, KeyError, AttributeError, NameError, UnboundLocalError)):
                o("C15", "write:succeeds", False, repr(e))
                o("C17", "write:succeeds", False, repr(e))
                o("C18", "write:succeeds", False, repr(e))
            return
        d = w.node
        ctx.cover("stored")
        if isinstance(d, SGrp):
            structure(w, d, r)
            return
        ok = isinstance(d, Dset) and r is d
        o("C15", "write:the entry is what is returned", ok, f"{d} {r}")
        if not ok:
            return
        a = d.contents
        o("C15", "write:the contents are those of the data given", isinstance(a, Arr) and a.term[0] in ("data", "shape", "zeros"), repr(d))
        if not isinstance(a, Arr):
            return
        o("C15", "write:the Attributes are replaced as a whole",
          any(t is d and x is True for t, _, x in w.sets) and w.sets[-1][0] is d, repr(w.sets))
        if tag == "C22":
            o("C22", "write:ends without changing the data given", True)
            return
        if tag == "C15":
            if d.old:  # that dtype and shape are compared is checked where the contents are replaced
                o("C15", "write:a Dataset is kept only for data of its dtype and shape", same_shape(d.sh.of, a.shape_) and d.dt.of is a.dt, repr(d))
            return
        if tag == "C17":
            filters(w, d, a)
        if tag == "C18" and opt("matlab_compatible"):
            markers(w, d, a, cls)

    return proc


def eq(w, a, b):
    a, b = (int(x) if isinstance(x, np.integer) else x for x in (a, b))
    return w.it.eq(a, b)


def filters(w, d, a):
    opt = w.options.sym_getattr
    f = {n: d.filter(n) for n in d.f}
    scalar = a.ndims() == 0
    on = z3.BoolVal(False) if scalar else z3.And(bexpr(opt("compress")), expr(a.nbytes()) >= expr(opt("compress_size_threshold")))
    checksum = False if scalar else opt("uncompressed_fletcher32_filter")

    def say(name, cond, r):
        r = bexpr(r)
        w.oblige("C17", "filters:" + name, SBool(z3.Implies(cond, r)), lambda: repr(d))

    alg = opt("compression_algorithm")
    say("the chosen algorithm", on, eq(w, f["compression"], alg))
    say("the chosen level", z3.And(on, bexpr(alg.sym_eq("gzip"))), eq(w, f["compression_opts"], opt("gzip_compression_level")))
    say("shuffle as chosen", on, eq(w, f["shuffle"], opt("shuffle_filter")))
    say("checksum as chosen for compressed data", on, eq(w, f["fletcher32"], opt("compressed_fletcher32_filter")))
    off = z3.Not(on)
    say("no compression", off, eq(w, f["compression"], None))
    say("no shuffle without compression", off, eq(w, f["shuffle"], False))
    say("checksum as chosen for uncompressed data", off, eq(w, f["fletcher32"], checksum))


def bexpr(x):
    return x.e if isinstance(x, SBool) else z3.BoolVal(x)


def attributes(w, d):
    """The Attributes asked for last; all others are discarded."""
    for t, a, discard in reversed(w.sets):
        if t is d and discard is True and isinstance(a, dict):
            return a
    return {}


def value(a, n):
    kv = a.get(n)
    return kv[1] if kv is not None else None


def both(*xs):
    return SBool(z3.And(*[bexpr(x) for x in xs]))


def lifted_eq(a, b):
    """Equality of values that may be lifted, without a decision."""
    if isinstance(a, Lift) and isinstance(b, Lift):
        return a.of is b.of and all(a.f(x) == b.f(x) for x in a.of.live)
    x, y = (a, b) if isinstance(a, Lift) else (b, a)
    if isinstance(x, Lift):
        return all(type(x.f(m)) is type(y) and x.f(m) == y for m in x.of.live)
    return type(a) is type(b) and bool(a == b)


def markers(w, d, a, cls):
    """What MATLAB needs, from the documentation of the file format."""
    opt = w.options.sym_getattr
    at, data, say = attributes(w, d), w.data, w.oblige
    info = lambda: f"{at} {a} of {data}"  # noqa: E731
    text = data.dt.tp in (np.bytes_, np.str_)
    empty = z3.Or(expr(data.size_) == 0, expr(data.nbytes()) == 0) if text else expr(data.size_) == 0
    none = z3.Not(empty)
    say("C18", "markers:the class fits the data", lifted_eq(value(at, "MATLAB_class"), cls), info)
    m = value(at, "MATLAB_empty")
    say("C18", "markers:marked as empty exactly if it is", SBool(empty if m is not None else none), info)
    say("C18", "markers:the marker for empty data is 1", m is None or isinstance(m, np.uint8) and int(m) == 1, info)
    if data.dt.fields_ is None:
        say("C18", "markers:no fields without a structure", "MATLAB_fields" not in at, info)
    # the characters and logical values
    m = value(at, "MATLAB_int_decode")
    if text or data.dt.tp is np.bool_:
        size = a.dt.sym_getattr("itemsize") if a.dt.tp is not np.bytes_ else 1
        say("C18", "markers:the size of what characters and logical values are stored as is told", m is not None and eq(w, m, size), info)
    else:
        say("C18", "markers:only characters and logical values are decoded", m is None, info)
    # empty data is stored as its shape
    is_shape = a.term[0] == "shape"
    say("C18", "layout:the shape is stored for empty data and the contents for other data", SBool(empty if is_shape else none), info)
    if is_shape:
        s = a.term[1]
        say("C18", "layout:the shape of empty data is stored as 64 bit integers", a.dt.tp is np.uint64, info)
        if not text:
            say("C18", "layout:the shape of empty data is told in the order of MATLAB", same_shape(s, expected_shape(w)), info)
        say("C18", "layout:a shape has at least two lengths", isinstance(s, tuple) and len(s) >= 2 or isinstance(s, ShapeN), info)
        return
    say("C18", "layout:at least two dimensions", not isinstance(a.shape_, tuple) or len(a.shape_) >= 2, info)
    if text:
        told = text_shape(w, a)
    else:
        told = expected_shape(w)
    told = told[::-1] if isinstance(told, tuple) else ShapeN(w, (told.key[0], not told.key[1]))
    say("C18", "layout:the dimensions are in reversed order", same_shape(a.shape_, told) and (
        not isinstance(a.shape_, ShapeN) or ("T" in a.term) == a.shape_.key[1]), info)
    ops = tuple(x for x in a.term[1:] if x not in ("T", "2d", "1d", "flat"))
    stored = {"logical": (("as", np.uint8),), "char": None, "cell": ("references",)}.get(cls if isinstance(cls, str) else None, ())
    if issubclass_(data.dt.tp, np.complexfloating):
        stored = ("pairs",)
    if stored is not None:
        say("C18", "layout:the values are stored as the class needs", ops == stored or ops == (("astype", np.uint8),) == stored, info)
    else:
        say("C18", "layout:characters are stored as unsigned integers or bytes", a.dt.tp in (np.uint16, np.uint32, np.bytes_), info)


def issubclass_(t, cls):
    return all(issubclass(t.f(x), cls) for x in t.of.live) if isinstance(t, Lift) else issubclass(t, cls)


def expected_shape(w):
    """Shape in MATLAB, of data that is not text."""
    s = w.data.shape_
    if isinstance(s, ShapeN):
        return s
    if not s:
        return (1, 1)
    row = w.it.truth(eq(w, w.options.sym_getattr("oned_as"), "row"))
    return (1, s[0]) if row else (s[0], 1)


def text_shape(w, a):
    s = a.shape_
    if isinstance(s, ShapeN):
        return ShapeN(w, (s.key[0], False))
    if a.dt.tp is np.bytes_ and len(w.data.shape_) == 1:
        return expected_shape(w)
    return (1, max(s, key=lambda x: isinstance(x, SInt)))


def structure(w, d, r):
    """A structure as a Group with an entry for each field."""
    opt, o, data = w.options.sym_getattr, w.oblige, w.data
    o("C15", "structure:the entry is what is returned", r is d)
    o("C22", "structure:ends without changing the data given", True)
    f = data.dt.fields_
    if f is None:
        o("C15", "structure:only data with fields is stored as a structure", False, repr(d))
        return
    e = f.focus.escaped()
    mine = [x for x in d.written if x[0] is e]
    o("C15", "structure:a field is written under its name", len(mine) == 1, repr(d.written))
    o("C15", "structure:only fields are written", all(x[0].raw is not None and any(x[0].raw is k for _, k in f.ks) for x in d.written), repr(d.written))
    if len(mine) != 1:
        return
    _, v, obj = mine[0]
    one = w.it.truth(eq(w, data.size_, 1))
    first = isinstance(v, Elem)
    o("C15", "structure:a single element is written as it is and others as an array of objects", one == first, repr(v))
    a = v.arr if first else v
    cells = a.term[0] if isinstance(a, Arr) else None
    ok = isinstance(cells, Cells)
    o("C15", "structure:the values of a field are written", ok, repr(v))
    if not ok:
        return
    none = w.it.truth(eq(w, data.size_, 0))
    fills = cells.fills
    o("C15", "structure:every element of the field is written at its place", none or len(fills) == 1 and fills[0].key is f.focus, repr(fills))
    if fills:
        src = fills[0].elem.arr
        o("C15", "structure:the elements are those of the data", src.term[0] == "data" and set(src.term[1:]) <= {"2d", "T"}, repr(src))
        o("C15", "structure:the elements are written in the order of the data", not isinstance(data.shape_, ShapeN) or (src.term[1:] + a.term[1:]).count("T") % 2 == 0, f"{src} {a}")
        if opt("matlab_compatible"):
            o("C18", "structure:the shape is at least two dimensional", first or same_shape(a.shape_, expected_shape(w)), f"{a}")
    if d.old and w.it.truth(opt("delete_unused_variables")) and not w.none.get(d, False):
        o("C15", "structure:what is no field of the data is deleted", d.leftover in d.deleted, repr(d.deleted))
    o("C15", "write:the Attributes are replaced as a whole", any(t is d and x is True for t, _, x in w.sets) and [t for t, *_ in w.sets if t is d or
      w.sets[-1][0] is d] != [], repr(w.sets))
    if opt("matlab_compatible"):
        at = attributes(w, d)
        o("C18", "structure:the class is struct", at.get("MATLAB_class") == ("string", "struct"), repr(at))
        m = value(at, "MATLAB_empty")
        o("C18", "structure:marked as empty exactly if it is", (m is not None and int(m) == 1) == none, repr(at))
        o("C18", "structure:nothing to decode", "MATLAB_int_decode" not in at, repr(at))
        names(w, at, f)
        if obj is not None:
            to = [x for x in w.sets if x[0] is obj]
            o("C18", "structure:fields tell where they are", any(isinstance(x[1], dict) and value(x[1], "H5PATH") is d.name_ for x in to), repr(to))


def names(w, at, f):
    m = value(at, "MATLAB_fields")
    bad = any(k.escaped().ascii is False for _, k in f.ks)
    if not isinstance(m, NamesArr):
        w.oblige("C18", "structure:the names of the fields are told unless they are not ASCII", m is None and bad, repr(at))
        return
    e = f.focus.escaped()
    mine = [v for i, v in m.items if i is e or i is None]
    w.oblige("C18", "structure:the name of a field is told at its place", len(mine) == 1 and isinstance(mine[0], CharArr) and mine[0].key is e, repr(m.items))


def matrix():
    for kind in GROUPS:
        for c in ["scalar", "ndarray", "matrix"] + ["chararray"] * (kind in ("bytes", "str")) + ["recarray"] * (kind == "struct"):
            yield kind, c


def procs(tag, tier="quick"):
    out = [(f"write {kind} {c} over {old}", proc_write(tag, kind, c, old), {"max_paths": 20000, "max_s": 300})
           for kind, c in matrix() for old in ("nothing", "dataset", "group")]
    return sorted(out, key=lambda p: -any(x in p[0] for x in ("str", "bytes")))
