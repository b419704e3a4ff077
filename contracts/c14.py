"""C14: contract of set_attributes_all.

For an arbitrary name: if it is requested it holds exactly the requested value
afterwards, whatever was there before; if it is not, it is gone if the others
are to be discarded and untouched otherwise.  The name asked about is anywhere
among arbitrarily many others that are requested, existing, or both; existing
and requested values are arbitrary.
"""
import h5py
import numpy as np

from pyvc.engine import FocusDict, FocusSeq, Model, PathEnd, Unsupported, current

TRUSTED = [
    "h5py.AttributeManager: create(name, value) makes the Attribute exactly value whatever was there; modify(name, value) does so if there is none "
    "or one of the same dtype and shape that is neither empty nor of variable length, raises if the shape differs and keeps the old dtype otherwise; "
    "deleting deletes, items() gives all of them",
    "the values under MATLAB_fields, and only they, are of variable length",
    "convert_to_str and convert_to_numpy_bytes by their contracts (C10)",
]


class AName(Model):
    def __init__(self, label, fields=False):
        self.label, self.fields = label, fields

    def __repr__(self):
        return self.label

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_type(self):
        return str

    def sym_eq(self, o):
        if isinstance(o, AName):
            return o is self
        if o == "MATLAB_fields":
            return self.fields
        raise Unsupported("comparison of the name of an Attribute")

    __hash__ = Model.__hash__

    def sym_in(self, c):
        return any(self.sym_eq(x) for x in c)


class Tok(Model):
    """A dtype or a shape, equal to another or not."""

    def __init__(self, what, owner):
        self.what, self.owner, self.same = what, owner, {}

    def sym_eq(self, o):
        if o is self:
            return True
        if isinstance(o, Tok) and o.what == self.what:
            if self.what.startswith("dtype.") and self.owner.dt.sym_eq(o.owner.dt):
                return True
            k = o if o.owner.rank < self.owner.rank else self
            m = self if k is o else o
            if id(m) not in k.same:
                k.same[id(m)] = current().choose(2, f"same {self.what}") == 0
            return k.same[id(m)]
        if o is None:
            return False
        if self.what == "shape" and o == ():
            if "()" not in self.same:
                self.same["()"] = current().choose(2, "0d") == 0
            return self.same["()"]
        if self.what == "dtype.kind" and isinstance(o, str) and len(o) == 1:
            return self.is_(o)
        raise Unsupported(f"comparison of a {self.what}")

    def is_(self, o):
        if getattr(self, "known", None) is None:
            if o not in self.same:
                self.same[o] = current().choose(2, f"kind is {o}") == 0
                if self.same[o]:
                    self.known = o
            return self.same[o]
        return self.known == o

    def sym_in(self, c):
        if self.what == "dtype.kind" and isinstance(c, (str, list, tuple, set, frozenset)):
            return any(self.is_(o) for o in c)
        raise Unsupported(f"membership of a {self.what}")

    def sym_getattr(self, n):
        if self.what == "dtype" and n in ("kind", "char", "itemsize", "name", "type", "byteorder", "str", "base"):
            return self.owner.part(f"dtype.{n}")
        raise Unsupported(f"{n} of a {self.what}")

    __hash__ = Model.__hash__


class Fn(Model):
    def __init__(self, f):
        self.sym_call = f


class Equal(Model):
    """Which elements of two values compare equal; zeros of different sign do."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def all(self):
        return current().choose(2, "values compare equal") == 0

    sym_bool = all


class Val(Model):
    """A value: an array or NumPy scalar, or anything else."""

    n = 0

    def __init__(self, kind, label):
        Val.n += 1
        self.rank, self.kind, self.label = Val.n, kind, label
        self.dt, self.sh, self.parts = Tok("dtype", self), Tok("shape", self), {}

    def part(self, what):
        if what not in self.parts:
            self.parts[what] = Tok(what, self)
        return self.parts[what]

    def __repr__(self):
        return f"<{self.label}: {self.kind}>"

    def sym_isinstance(self, cls):
        if cls is object:
            return True
        if cls in (np.ndarray, np.generic):
            if self.kind in ("python", "str", "empty"):
                return False
            if self.kind == "fields":
                return cls is np.ndarray
            if not hasattr(self, "scalar"):
                self.scalar = current().choose(2, "array or scalar") == 1
            return self.scalar == (cls is np.generic)
        if cls is h5py.Empty:
            return self.kind == "empty"
        if cls is str:
            return self.kind == "str" if self.kind != "python" else self.maybe("str")
        raise Unsupported(f"isinstance of a value: {cls}")

    def maybe(self, what):
        if not hasattr(self, "is_" + what):
            setattr(self, "is_" + what, current().choose(2, "a " + what) == 1)
        return getattr(self, "is_" + what)

    def sym_getattr(self, n):
        if n not in ("dtype", "shape", "tobytes", "size", "ndim", "itemsize", "nbytes") or self.kind in ("python", "str"):
            if n in ("dtype", "shape", "size", "ndim", "itemsize", "nbytes", "tobytes"):
                if self.kind in ("python", "str"):
                    raise AttributeError(n)
            raise Unsupported(f"attribute {n} of a value")
        if n == "tobytes":
            return Fn(lambda: self.part("bytes"))
        if n in ("size", "ndim", "itemsize", "nbytes"):
            return self.part(n)
        if n == "size" and self.kind == "empty":
            return None
        if n == "shape" and self.kind == "empty":
            return None
        return self.dt if n == "dtype" else self.sh

    def sym_eq(self, o):
        if o is self:
            return True
        return Equal(self, o)

    __hash__ = Model.__hash__


class Text(Model):
    def __init__(self, label):
        self.label = label

    def sym_isinstance(self, cls):
        raise Unsupported("type of a string")

    def sym_bool(self):
        if not hasattr(self, "some"):
            self.some = current().choose(2, "empty") == 0
        return self.some


class Conv(Val):
    """The outcome of a conversion: str of an element, or bytes of a string."""

    def __init__(self, of, to):
        super().__init__("python" if to == "str" else "numpy", f"{to} of {of.label}")
        self.of, self.to = of, to


class Attrs(Model):
    """The Attributes of an object."""

    def __init__(self, old):
        self.state = {k: ("old", v) for k, v in old}
        self.order = [(g, k) for g, k in old_names(old)]

    def sym_isinstance(self, cls):
        return issubclass(h5py.AttributeManager, cls)

    def live(self):
        return [(not k.focus, k) for k in self.state]

    def sym_contains(self, k):
        return k in self.state

    def value(self, k):
        how, v = self.state[k][:2]
        if how == "old":
            return v
        raise Unsupported("reading what was written")

    def get(self, k, default=None):
        return self.value(k) if k in self.state else default

    def sym_getitem(self, k):
        if k not in self.state:
            raise KeyError("no such attribute")
        return self.value(k)

    def items(self):
        return FocusSeq([(g, (k, self.value(k))) for g, k in self.live()])

    def keys(self):
        return FocusSeq(self.live())

    sym_iter = keys

    def values(self):
        return FocusSeq([(g, self.value(k)) for g, k in self.live()])

    def sym_delitem(self, k):
        if k not in self.state:
            raise KeyError("no such attribute")
        del self.state[k]

    def pop(self, k, *d):
        if k not in self.state:
            if d:
                return d[0]
            raise KeyError("no such attribute")
        v = self.value(k)
        del self.state[k]
        return v

    def create(self, name, data=None, shape=None, dtype=None):
        if shape is not None:
            raise Unsupported("shape of an attribute")
        if dtype is not None and not (isinstance(dtype, np.dtype) and tuple(h5py.check_string_dtype(dtype) or ()) == ("utf-8", None)):
            raise Unsupported("dtype of an attribute")
        self.state[name] = ("exact", data, dtype)

    def sym_setitem(self, k, v):
        self.create(k, v)

    def modify(self, name, value):
        if name not in self.state:
            return self.create(name, value)
        how, old = self.state[name][:2]
        if how != "old":
            raise Unsupported("modifying what was just written")
        if isinstance(value, FocusSeq):
            raise Unsupported("modifying with a list")
        if old.kind == "empty":
            raise OSError("Empty attributes can't be modified")
        if value.kind == "fields" or old.kind in ("str", "fields") or value.kind == "python" or not old.dt.sym_eq(value.dt):
            if current().choose(2, "shape fits") == 0:
                raise TypeError("Shape of data is incompatible with existing attribute")
            self.state[name] = ("converted", value)
        elif not old.sh.sym_eq(value.sh):
            # the case () <-> (1,) keeps the shape of the old one
            if current().choose(2, "shape fits") == 0:
                raise TypeError("Shape of data is incompatible with existing attribute")
            self.state[name] = ("converted", value)
        else:
            self.state[name] = ("exact", value, None)


def old_names(old):
    return [(not k.focus, k) for k, _ in old]


class KeySet(Model):
    def __init__(self, elems):
        self.elems = list(elems)

    def sym_isinstance(self, cls):
        return issubclass(set, cls)

    def names(self):
        return [k for _, k in self.elems]

    def sym_iter(self):
        return FocusSeq(self.elems)

    def sym_set(self):
        return KeySet(self.elems)

    sym_list = sym_iter

    def sym_contains(self, x):
        return any(k is x for k in self.names())

    def sym_binop(self, op, o, refl):
        o = keyset(o)
        if o is None or refl:
            return NotImplemented
        if op == "Sub":
            return KeySet([e for e in self.elems if not o.sym_contains(e[1])])
        if op == "BitAnd":
            return KeySet([e for e in self.elems if o.sym_contains(e[1])])
        return NotImplemented

    def difference(self, o):
        return self.sym_binop("Sub", o, False)

    def intersection(self, o):
        return self.sym_binop("BitAnd", o, False)

    def sym_bool(self):
        return FocusSeq(self.elems).sym_bool()


def keyset(o):
    if isinstance(o, KeySet):
        return o
    if isinstance(o, FocusDict):
        return KeySet([(g, k) for g, (k, _) in o.elems])
    if isinstance(o, FocusSeq):
        return KeySet(o.take())
    return None


class ADict(FocusDict):
    def sym_set(self):
        return keyset(self)

    def keys(self):
        return keyset(self)

    def sym_iter(self):
        return FocusSeq([(g, k) for g, (k, _) in self.elems])

    def sym_dict(self, **k):
        if k:
            raise Unsupported("dict with keywords")
        return ADict(self.elems)

    def copy(self):
        return ADict(self.elems)


class Target(Model):
    def __init__(self, attrs):
        self.attrs = attrs

    def sym_isinstance(self, cls):
        if cls in (h5py.Dataset, h5py.Group):
            return current().choose(2, "kind of object") == (cls is h5py.Group)
        raise Unsupported("kind of object")


def value(ctx, name, label):
    """A requested (kind, value)."""
    kinds = ["string_array", "string", "value"] if not name.fields else ["fields"]
    k = ctx.pick(kinds, f"kind of {label}")
    if k == "string_array":
        e = [(True, Text(f"word of {label}")), (False, Text(f"the word of {label}")), (True, Text(f"later word of {label}"))]
        return (k, FocusSeq(e, ctx.pick([list, tuple], "list or tuple")))
    if k == "string":
        return (k, Text(label))
    return ("value", Val("fields" if name.fields else ctx.pick(["numpy", "python"], "value"), label))


def old(ctx, name, label):
    return Val(ctx.pick(["numpy", "str", "empty"] + (["fields"] if name.fields else []), f"kind of {label}"), label)


def stored(st, want):
    kind, v = want
    how, got = st[0], st[1]
    if how == "old" and kind != "string_array" and got.kind == "numpy":
        w = v if kind == "value" else None
        # bit for bit what was there
        same = got.part("bytes").same
        return w is not None and w.kind == "numpy" and any(same.values()) and got.dt.sym_eq(w.dt) and got.sh.sym_eq(w.sh)
    if how != "exact":
        return False
    if kind == "string_array":
        if not isinstance(got, FocusSeq):
            raise Unsupported("strings stored in another way")
        if st[2] is None:
            raise Unsupported("strings stored without their dtype")
        # the dtype is that of strings; a generic element may have been taken to be empty
        want_ = [(g, x) for g, x in v.elems if not (g and not any(isinstance(y, Conv) and y.of is x for _, y in got.elems))]
        return len(want_) == len(got.elems) and all(
            isinstance(y, Conv) and y.to == "str" and y.of is x and g == h for (g, x), (h, y) in zip(want_, got.elems))
    if kind == "string":
        return isinstance(got, Conv) and got.to == "bytes" and got.of is v and st[2] is None
    return got is v and st[2] is None


def proc(fields, existed, requested):
    def go(ctx):
        from hdf5storage import utilities as u

        it = ctx.interp
        Val.n = 0

        def name(label, isfields=False, focus=False):
            n = AName(label, isfields)
            n.focus = focus
            return n

        K = name("the name", fields, True)
        # MATLAB_fields can also be one of the others
        B, E, R = name("other in both"), name("other existing"), name("other requested")
        special = None if fields else ctx.pick([None, B, E, R], "which of the others is MATLAB_fields")
        if special is not None:
            special.fields = True
        olds = [(B, old(ctx, B, "old other") if special is B else Val("numpy", "old other")), (E, Val("numpy", "old unrequested"))]
        if existed:
            olds.insert(1, (K, old(ctx, K, "old value")))
        asked = [(True, (R, value(ctx, R, "other value") if special is R else ("value", Val("numpy", "other value")))),
                 (True, (B, value(ctx, B, "value of both") if special is B else ("value", Val("numpy", "value of both"))))]
        want = None
        if requested:
            want = value(ctx, K, "value")
            # before, between or after the others
            asked.insert(ctx.choose(3, "place among the requested"), (False, (K, want)))
        attrs = Attrs(olds)
        for fn in (h5py.special_dtype, h5py.string_dtype, h5py.check_string_dtype, h5py.check_vlen_dtype):
            it.models[fn] = fn
        it.models[np.array_equal] = lambda a, b, **k: Equal(a, b).all()
        it.models[np.all] = lambda x, *a: x.all()
        it.hooks["dict_factory"] = ADict
        it.hooks["set_factory"] = lambda: KeySet([])
        it.by_name["convert_to_str"] = lambda x: conv(x, "str")
        it.by_name["convert_to_numpy_bytes"] = lambda x, length=None: conv(x, "bytes")
        discard = ctx.pick([True, False, None], "discard the others")
        args = [Target(attrs), ADict(asked)] + ([discard] if discard is not None else [])
        e = None
        try:
            it.run_function(u.set_attributes_all, args, {})
        except (Unsupported, PathEnd):
            raise
        except Exception as x:  # noqa: BLE001
            e = x
        ctx.oblige("outcome:no error", e is None, f"{e!r}")
        if e is not None:
            return
        st = attrs.state.get(K)
        if requested:
            ctx.oblige("requested:it is there", st is not None)
            if st is not None:
                ctx.oblige("requested:it has exactly the value", stored(st, want), f"{want} over {dict(olds).get(K)}: {st}")
        elif discard is False:
            ctx.oblige("others:untouched unless they are to be discarded", st == (("old", dict(olds)[K]) if existed else None), f"{st}")
        else:
            ctx.oblige("others:gone if they are to be discarded", st is None, f"{st}")
        ctx.cover("set")

    return go


def conv(x, to):
    if not isinstance(x, Text):
        raise Unsupported("conversion of something else")
    return Conv(x, to)


def procedures(tier):
    out = []
    for fields in (False, True):
        for existed in (True, False):
            for requested in (True, False):
                if existed or requested:
                    out.append((f"{'MATLAB_fields' if fields else 'a name'}, {'existing' if existed else 'new'}, {'requested' if requested else 'not requested'}",
                                proc(fields, existed, requested), dict(must_cover={"set"}, max_paths=200000)))
    return out
