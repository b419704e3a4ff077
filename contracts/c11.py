"""C11: contracts of encode_complex and decode_complex.

decode_complex: data is an array or scalar of any shape whose dtype has no
fields, or any number of fields with arbitrary names and dtypes; the requested
names are none, or arbitrary.  Names are equal exactly if they are the same
object; each is one of the recognised names in any mixture of cases, or
something else.
encode_complex: complex data of any precision and byte order, arbitrary names.
The round trip is the composition of both contracts.
"""
import itertools

import numpy as np

from pyvc.engine import FocusSeq, Lift, Members, Model, PathEnd, Sym, Unsupported, current

TRUSTED = [
    "NumPy: a field of a structured array is the data of that field; np.array(x, dtype) holds x converted to dtype, which is exact to a complex "
    "dtype of the same precision, with imaginary part 0; assigning imag (real) replaces exactly the imaginary (real) parts; a view as a record of "
    "two floats has the real and the imaginary part as its first and second field; no field names are equal",
]

REAL = ["r", "re", "real"]
IMAG = ["i", "im", "imag", "imaginary"]


def cases(words):
    out = []
    for w in words:
        out += ["".join(t) for t in itertools.product(*[(c, c.upper()) for c in w])]
    return out


ALL = {"real": cases(REAL), "imag": cases(IMAG)}
ODD = ["rx", "ix", "realm", "image", "x", "", "ri", "R2", "_r", " i"]


class Lowered(Model):
    """A name that is no recognised one, in lower case."""

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def other(self, x):
        if isinstance(x, str) and x in REAL + IMAG:
            return False
        raise Unsupported("comparison of a name")

    def sym_eq(self, o):
        return o is self or self.other(o)

    __hash__ = Model.__hash__

    def sym_in(self, c):
        if isinstance(c, str):
            raise Unsupported("part of a string")
        return any(self.other(x) for x in c)

    def sym_index_of(self, c):
        if all(isinstance(x, str) and x in REAL + IMAG for x in c):
            raise KeyError("name")
        raise Unsupported("name as a key")


class Fn(Model):
    def __init__(self, f):
        self.sym_call = f


class Name(Model):
    by_identity = True

    def __init__(self, ctx, label):
        self.ctx, self.label, self._role, self.content = ctx, label, None, None

    def __repr__(self):
        return f"<{self.label}: {self._role} {self.content.of.live[:3] if self.content else ''}>"

    @property
    def role(self):
        if self._role is None:
            self._role = self.ctx.pick(["real", "imag", "other"], f"role of {self.label}")
            if self._role != "other":
                self.content = Lift(Members(self.ctx, ALL[self._role], self.label))
        return self._role

    def text(self):
        """Its content where it is one of known texts."""
        if self.role == "other" and self.content is None:
            k = self.ctx.choose(2, f"{self.label} is anything or an example")
            self.content = False if k == 0 else Lift(Members(self.ctx, ODD, self.label))
        return self.content or None

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_type(self):
        return str

    def sym_eq(self, o):
        if isinstance(o, Name) or o is None:
            return o is self
        if self.text() is None:
            if isinstance(o, str) and o.lower() in REAL + IMAG:
                return False
            raise Unsupported("comparison of a name")
        return self.content.sym_eq(o)

    __hash__ = Model.__hash__

    def sym_in(self, c):
        if isinstance(c, (list, tuple, set, frozenset, dict)) and any(isinstance(x, Name) or x is None for x in c):
            return any(x is self for x in c)
        if self.text() is None:
            if isinstance(c, (list, tuple, set, frozenset, dict)) and all(isinstance(x, str) and x.lower() in REAL + IMAG for x in c):
                return False
            raise Unsupported("membership of a name")
        return self.content.sym_in(c)

    def sym_getattr(self, n):
        if n in ("lower", "casefold"):
            return Fn(lambda: Lowered() if self.text() is None else self.content.map(str.lower))
        if self.text() is None:
            raise Unsupported(f"str.{n} of a name")
        return self.content.sym_getattr(n)

    def sym_getitem(self, i):
        if self.text() is None:
            raise Unsupported("part of a name")
        return self.content.sym_getitem(i)

    def only(self):
        return self.content.of.live[0] if isinstance(self.content, Lift) and len(self.content.of.live) == 1 else None


DTYPES = [np.dtype(x) for x in ("?", "i1", "u1", "<i2", ">i2", "<u2", ">u2", "<i4", ">i4", "<u4", ">u4", "<i8", ">i8", "<u8", ">u8", "<f2", ">f2", "<f4", ">f4",
                                "<f8", ">f8", "<c8", ">c8", "<c16", ">c16", "S3", "<U3", ">U3", "V3", "O", "<M8[s]", "<m8[s]", "f4,f4")]


class Shape(Model):
    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return self.label

    def sym_eq(self, o):
        if isinstance(o, Shape) or o is self:
            return o is self
        raise Unsupported("comparison of a shape")

    __hash__ = Model.__hash__

    def sym_isinstance(self, cls):
        return issubclass(tuple, cls)


class FieldData(Model):
    """The data of one field."""

    def __init__(self, data, name):
        self.data, self.name = data, name
        self.dt = Lift(Members(data.ctx, DTYPES, f"dtype of {name.label}"))
        # a field may be a sub-array
        self.shape = data.shape if data.ctx.choose(2, f"{name.label} is a sub-array") == 0 else Shape(f"shape of {name.label}")

    def sym_isinstance(self, cls):
        if cls is np.generic:
            return self.data.scalar and self.shape is self.data.shape
        if cls is np.ndarray:
            return not (self.data.scalar and self.shape is self.data.shape)
        raise Unsupported("type of a field")

    def sym_getattr(self, n):
        if n == "dtype":
            return self.dt
        if n == "shape":
            return self.shape
        if n in ("ndim", "size", "astype", "view", "copy"):
            raise Unsupported(f"{n} of a field")
        raise Unsupported(f"attribute {n} of a field")

    def dtype(self):
        """The dtype, decided."""
        while len(self.dt.of.live) > 1:
            k = self.data.ctx.choose(len(self.dt.of.live), "dtype")
            self.dt.of.live = [self.dt.of.live[k]]
        return self.dt.of.live[0]

    def sym_binop(self, op, o, refl):
        return Arith(self)


class Arith(Model):
    """Outcome of arithmetic: does not keep every bit pattern."""

    def __init__(self, *of):
        self.of = of

    def sym_binop(self, op, o, refl):
        return self

    def sym_getattr(self, n):
        raise Unsupported(f"attribute {n} of a sum")

    def sym_getitem(self, i):
        return self


class Complex(Model):
    """A complex array being filled."""

    def __init__(self, dtype, shape, real, imag, scalar=False):
        self.dtype, self.shape, self.re, self.im, self.scalar = dtype, shape, real, imag, scalar

    def __repr__(self):
        return f"<{self.dtype} of {self.re}, {self.im}>"

    def sym_isinstance(self, cls):
        return cls is (np.generic if self.scalar else np.ndarray)

    def sym_getattr(self, n):
        if n in ("dtype", "shape"):
            return getattr(self, n)
        raise Unsupported(f"attribute {n} of the result")

    def sym_setattr(self, n, v):
        if n == "imag":
            self.im = v
        elif n == "real":
            self.re = v
        else:
            raise Unsupported(f"setting {n}")

    def sym_getitem(self, i):
        if i == ():
            return Complex(self.dtype, self.shape, self.re, self.im, True)
        raise Unsupported("part of the result")


class DtModel(Model):
    """The dtype of structured data."""

    def __init__(self, data):
        self.data = data

    def sym_isinstance(self, cls):
        return issubclass(np.dtype, cls)

    def sym_getattr(self, n):
        d = self.data
        if n == "fields":
            return None if d.names is None else Fields(d)
        if n == "names":
            return None if d.names is None else d.seq(tuple)
        if n == "kind":
            if d.names is not None:
                return "V"
        if n == "subdtype":
            return None
        raise Unsupported(f"attribute {n} of a dtype")

    def sym_getitem(self, k):
        return self.data.field(k).dt


class Fields(Model):
    def __init__(self, data):
        self.data = data

    def sym_iter(self):
        return self.data.seq(list)

    sym_list = keys = sym_iter

    def sym_set(self):
        return set(self.sym_iter()) if not self.data.many else self.bad()

    def bad(self):
        raise Unsupported("set of many fields")

    def sym_len(self):
        return self.data.count()

    def sym_bool(self):
        return True

    def sym_contains(self, k):
        return any(n is k for n in self.data.names)

    def sym_getitem(self, k):
        return (self.data.field(k).dt, current().int("offset"))


class Data(Model):
    def __init__(self, ctx, n):
        self.ctx, self.n = ctx, n
        self.names = None if n is None else [Name(ctx, f"field {i}") for i in range(n)]
        self.many = n == 3
        self.shape = Shape("shape")
        self._scalar, self.fields = None, {}

    @property
    def scalar(self):
        if self._scalar is None:
            self._scalar = self.ctx.choose(2, "array or scalar") == 1
        return self._scalar

    def seq(self, t):
        if self.many:
            return FocusSeq([(False, x) for x in self.names] + [(True, Name(self.ctx, "further fields"))], t)
        return t(self.names)

    def count(self):
        if not self.many:
            return self.n
        n = self.ctx.int("fields")
        self.ctx.assume(n.e >= 3)
        return n

    def field(self, k):
        if isinstance(k, Name) and self.names is not None and any(k is x for x in self.names):
            if id(k) not in self.fields:
                self.fields[id(k)] = FieldData(self, k)
            return self.fields[id(k)]
        raise ValueError("no field of name") if isinstance(k, (Name, str)) or k is None else Unsupported("element of data")

    def sym_isinstance(self, cls):
        if cls is np.generic:
            return self.scalar
        if cls is np.ndarray:
            return not self.scalar
        if cls is np.void and self.names is not None:
            return self.scalar
        raise Unsupported(f"isinstance of data: {cls}")

    def sym_getattr(self, n):
        if n == "dtype":
            return DtModel(self)
        if n == "shape":
            return self.shape
        raise Unsupported(f"attribute {n} of data")

    def sym_getitem(self, k):
        return self.field(k)


def dt(x):
    return x.dtype() if isinstance(x, FieldData) else x


def make(x, dtype=None, copy=True, subok=False, order=None):
    if isinstance(x, FieldData) and is_complex(dtype):
        return Complex(dtype, x.shape, x, None)
    if isinstance(x, Complex) and dtype in (None, x.dtype):
        return Complex(x.dtype, x.shape, x.re, x.im)
    raise Unsupported("np.array")


def blank(shape, dtype=None):
    if is_complex(dtype) and isinstance(shape, Shape):
        return Complex(dtype, shape, None, None)
    raise Unsupported("np.empty")


class SomeComplex(Model):
    """A complex dtype for parts that are not both floats."""

    kind = "c"

    def sym_isinstance(self, cls):
        return issubclass(np.dtype, cls)

    def newbyteorder(self, o=None):
        return self


def is_complex(d):
    return isinstance(d, SomeComplex) or isinstance(d, np.dtype) and d.kind == "c"


def result_type(*a):
    lifted = [x for x in a if isinstance(x, Lift)]
    if not all([x.map(lambda d: d.kind == "f") for x in lifted]):
        if any(not isinstance(x, Lift) and np.dtype(x).kind == "c" for x in a):
            return SomeComplex()
        raise Unsupported("common dtype")
    return np.result_type(*[concrete(x) for x in a])


def concrete(v):
    """A lifted dtype, decided."""
    if isinstance(v, Lift):
        m = v.of
        if len(m.live) > 1:
            m.live = [m.live[m.ctx.choose(len(m.live), "dtype")]]
        return v.f(m.live[0])
    return v


def proc_decode(n, names):
    def go(ctx):
        from hdf5storage import utilities as u

        it = ctx.interp
        data = Data(ctx, n)
        it.hooks["focus_len"] = lambda s: data.count()
        it.models[np.result_type] = result_type
        it.models[np.promote_types] = result_type
        it.models[np.dtype] = lambda x, *a: np.dtype(concrete(x), *a)
        it.models[np.array] = make
        it.models[np.asarray] = lambda x, dtype=None: make(x, dtype)
        it.models[np.empty] = it.models[np.zeros] = blank
        it.models[np.shape] = lambda x: it.getattr(x, "shape")
        it.models[np.iscomplexobj] = lambda x: it.getattr(it.getattr(x, "dtype"), "kind") == "c" if isinstance(x, FieldData) else False
        cn = None
        if names:
            pool = [None, "new"] + (data.names or [])
            cn = [ctx.pick(pool, f"requested name {i}") for i in range(2)]
            cn = tuple(Name(ctx, f"requested {i}") if x == "new" else x for i, x in enumerate(cn))
        e, r = None, None
        try:
            r = it.run_function(u.decode_complex, [data] + ([cn] if names else []), {})
        except (Unsupported, PathEnd):
            raise
        except Exception as x:  # noqa: BLE001
            e = x
        told = f"{data.names} requested {cn}: {r!r} {e!r}"
        ctx.cover("decoded")
        known = [x.only() for x in (data.names or [])[:2] + [x for x in cn or () if isinstance(x, Name) and x not in (data.names or [])]]
        known = [x for x in known if x is not None]
        if len(set(known)) < len(known):
            return  # different names are not equal
        ctx.oblige("outcome:no error", e is None, told)
        if e is not None:
            return
        if n != 2:
            ctx.oblige("decode:anything but two fields is unchanged", r is data, told)
            return
        a, b = data.names
        roles = [a.role, b.role]
        if sorted(roles) == ["imag", "real"]:
            real, imag = (a, b) if roles[0] == "real" else (b, a)
        elif roles == ["other", "other"]:
            if cn is not None and cn[0] is not cn[1] and cn[0] in (a, b) and cn[1] in (a, b):
                real, imag = cn
            else:
                ctx.oblige("decode:names that are not a pair are unchanged", r is data, told)
                return
        elif cn is None or not (cn[0] in (a, b) and cn[1] in (a, b) and cn[0] is not cn[1]):
            if cn is None or (cn[0] not in (a, b) and cn[1] not in (a, b)):
                ctx.oblige("decode:names that are not a pair are unchanged", r is data, told)
            return
        else:
            return  # a recognised name requested together with another: either reading is fine
        fr, fi = data.field(real), data.field(imag)
        kr, ki = fr.dt.sym_getattr("kind"), fi.dt.sym_getattr("kind")
        numbers = all((k.sym_in("biuf") if isinstance(k, Lift) else k in "biuf") for k in (kr, ki))
        if not numbers or fr.shape is not fi.shape:
            ctx.oblige("decode:fields that are not real numbers of the same shape are unchanged", r is data, told)
            return
        ok = isinstance(r, Complex)
        if not ok and not (isinstance(r, Arith) or r is data):
            raise Unsupported("result of another kind")
        if not all([x.dt.map(lambda d: d.kind == "f") for x in (fr, fi)]):
            ctx.oblige("decode:unchanged or the parts that the names say", r is data or (ok and r.re is fr and r.im is fi), told)
            return
        ctx.oblige("decode:exactly the parts that the names say", ok and r.re is fr and r.im is fi, told)
        if not ok:
            return
        dr, di = fr.dtype(), fi.dtype()
        told += f" {dr} {di}"
        if dr.itemsize == di.itemsize and dr.itemsize >= 4:
            ctx.oblige("decode:the complex dtype of the same precision", r.dtype.kind == "c" and r.dtype.itemsize == 2 * dr.itemsize, told)
            if dr == di:
                ctx.oblige("decode:same byte order", r.dtype.isnative == dr.isnative, told)
        # the parts of data that is a scalar can still be arrays
        if fr.shape is data.shape:
            ctx.oblige("decode:scalar exactly if the data is one", r.scalar == data.scalar, told)

    return go


class View(Model):
    def __init__(self, data, dtype):
        self.data, self.dtype = data, dtype

    def __repr__(self):
        return f"<view as {self.dtype}>"

    def sym_getattr(self, n):
        raise Unsupported(f"attribute {n} of the result")


class Record(Model):
    """A structured array being filled."""

    def __init__(self, dtype, shape):
        self.dtype, self.shape, self.parts, self.scalar = dtype, shape, {}, False

    def sym_setitem(self, k, v):
        for n, _ in self.dtype:
            if n is k:
                self.parts[id(n)] = v
                return
        raise Unsupported("setting part of the result")

    def sym_getitem(self, i):
        if i == ():
            self.scalar = True
            return self
        raise Unsupported("part of the result")

    def sym_getattr(self, n):
        raise Unsupported(f"attribute {n} of the result")


class Part(Model):
    def __init__(self, which, dtype):
        self.which, self.dtype = which, dtype

    def sym_binop(self, op, o, refl):
        return Arith(self)

    def sym_getattr(self, n):
        if n == "dtype":
            return self.dtype
        raise Unsupported(f"attribute {n} of a part")


class CData(Model):
    def __init__(self, ctx):
        self.ctx = ctx
        self.dt = np.dtype(ctx.pick(["<c8", ">c8", "<c16", ">c16"], "dtype"))
        self.shape, self.scalar = Shape("shape"), ctx.choose(2, "array or scalar") == 1

    def sym_isinstance(self, cls):
        if cls in (np.generic, np.complexfloating):
            return self.scalar
        if cls is np.ndarray:
            return not self.scalar
        if self.scalar and isinstance(cls, type) and issubclass(cls, np.generic):
            return issubclass(self.dt.type, cls)
        raise Unsupported("type of data")

    def sym_getattr(self, n):
        if n == "dtype":
            return self.dt
        if n == "shape":
            return self.shape
        if n in ("real", "imag"):
            return Part(n, np.dtype(f"{self.dt.byteorder}f{self.dt.itemsize // 2}"))
        if n == "itemsize":
            return self.dt.itemsize
        if n == "view":
            return self.view_
        raise Unsupported(f"attribute {n} of data")

    def view_(self, dtype=None, type=None):
        if type is not None or not isinstance(dtype, list):
            raise Unsupported("view")
        return View(self, dtype)


def fields_ok(dtype, a, b, d):
    if not (isinstance(dtype, list) and all(isinstance(x, tuple) and len(x) == 2 for x in dtype)):
        raise Unsupported("dtype of the result")
    want = np.dtype(f"{d.byteorder}f{d.itemsize // 2}")
    return [x[0] for x in dtype], all(np.dtype(x[1]) == want and np.dtype(x[1]).byteorder == want.byteorder for x in dtype)


def proc_encode(ctx):
    from hdf5storage import utilities as u

    it = ctx.interp
    data = CData(ctx)
    it.models[np.dtype] = lambda x, *a: np.dtype(x, *a) if not any(isinstance(y, Name) for z in (x if isinstance(x, list) else []) for y in z) else x
    it.models[np.empty] = it.models[np.zeros] = lambda shape, dtype=None: Record(dtype, shape)
    a, b = Name(ctx, "real name"), Name(ctx, "imag name")
    e, r = None, None
    try:
        r = it.run_function(u.encode_complex, [data, (a, b)], {})
    except (Unsupported, PathEnd):
        raise
    except Exception as x:  # noqa: BLE001
        e = x
    told = f"{data.dt}: {r!r} {e!r}"
    ctx.oblige("outcome:no error", e is None, told)
    ctx.cover("encoded")
    if e is not None:
        return
    if not isinstance(r, (View, Record)):
        raise Unsupported("result of another kind")
    names, same = fields_ok(r.dtype, a, b, data.dt)
    ctx.oblige("encode:the two requested names", len(names) == 2 and {id(x) for x in names} == {id(a), id(b)}, told)
    ctx.oblige("encode:same precision and byte order", same, told)
    if isinstance(r, View):
        ctx.oblige("encode:exactly the parts under their names", names[0] is a and r.data is data, told)
    else:
        ps = [r.parts.get(id(x)) for x in (a, b)]
        ctx.oblige("encode:exactly the parts under their names", all(isinstance(p, Part) and p.which == w for p, w in zip(ps, ("real", "imag"))), told)
        ctx.oblige("encode:same shape", r.shape is data.shape and r.scalar == data.scalar, told)


def procedures(tier):
    kw = dict(max_paths=100000, max_s=120)
    out = [("encode_complex", proc_encode, dict(must_cover={"encoded"}))]
    for n, w in ((None, "no fields"), (1, "one field"), (2, "two fields"), (3, "more fields")):
        for names in (False, True):
            out.append((f"decode_complex, {w}, {'names' if names else 'no names'} requested", proc_decode(n, names), dict(must_cover={"decoded"}, **kw)))
    return out
