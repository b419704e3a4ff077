"""C09: contracts of the marshallers of containers.

Induction over the nesting: what write_data writes under a name, read_data reads
back from it (values nested in a container); the marshallers are proved to keep
every element, in order, and the type.  Lists and what is written as one are
proved over the contract of NumpyScalarArrayMarshaller for object arrays (C16),
what is written as a dict over the contract of PythonDictMarshaller, and that
one is proved here.
"""
import collections
import datetime
import fractions
import importlib

import h5py
import numpy as np

from contracts.c07 import run
from pyvc.engine import FocusSeq, Idx, Model, Opaque, Star, Unsupported, current

TRUSTED = [
    "NumpyScalarArrayMarshaller: an object array of one dimension is read back with as many elements, in order, each as read_data reads it (C16, C08)",
    "write_data and read_data: what is written under a name is read back from it (induction over the nesting), other names are not touched; values are "
    "of supported types",
    "numpy: assigning a list to all of an object array of one dimension makes each element an element",
    "escape_path and unescape_path are inverse, escape_path keeps texts apart (C01); convert_to_str, convert_to_numpy_str and convert_to_numpy_bytes are "
    "inverse to each other on what they accept (C10); set_attributes_all stores the Attributes (C14)",
    "h5py: Groups are made, deleted and listed by name; of the names used, all or none were there before the write",
    "the Group for references is never the place of an item (C03)",
    "the constructors of the standard library give equal objects for equal arguments",
]


def root(x):
    return getattr(x, "key", None)


class Seq(FocusSeq):
    """A sequence, made one by one along the data or not."""

    data = None  # the sequence of the data

    def __init__(self, elems=(), pytype=list):
        super().__init__(elems, pytype)

    def aligned(self):
        d = current().interp.hooks["data"].elems
        return [g for g, _ in self.elems] == [g for g, _ in d] and all(
            root(x) is None or root(x) is root(y) for (_, x), (_, y) in zip(self.elems, d))

    def image_of(self, x):
        d = current().interp.hooks["data"].elems
        pos = [i for i, (_, y) in enumerate(d) if root(y) is root(x) and root(x) is not None]
        if not pos or not self.aligned():
            raise Unsupported("index of one sequence in another")
        return self.elems[pos[0]][1]

    def add(self, x):
        if not self.sym_contains(x):
            self.append(x)

    def update(self, o):
        self.extend(o)

    def sym_contains(self, x):
        if any(y is x for _, y in self.elems):
            return True
        if isinstance(x, EName):
            if any(isinstance(y, EName) and y.key.earlier for _, y in self.elems) and not x.key.earlier and x.key.fact("clash"):
                return True
            if all(isinstance(y, (EName, Stale, OptEsc)) for _, y in self.elems):
                return False
        if isinstance(x, (Stale, OptEsc)) and all(isinstance(y, (EName, Stale, OptEsc)) for _, y in self.elems):
            return False
        raise Unsupported("membership")

    def difference(self, *os):
        out = self.elems
        for o in os:
            o = o if isinstance(o, FocusSeq) else Seq([(False, y) for y in o])
            out = [(g, x) for g, x in out if not o.sym_contains(x)]
        return Seq(out, self.pytype)

    def sym_binop(self, op, o, refl):
        if op == "Sub" and not refl:
            return self.difference(o)
        return super().sym_binop(op, o, refl)

    def sym_eq(self, o):
        raise Unsupported("comparison of sequences")


class Count(Model):
    def __init__(self, seq):
        self.seq = seq

    def sym_isinstance(self, cls):
        return issubclass(int, cls)

    def sym_eq(self, o):
        if isinstance(o, Count) and self.seq.aligned() and o.seq.aligned():
            return True
        raise Unsupported("comparison of lengths")

    def sym_bool(self):
        if any(not g for g, _ in self.seq.elems):
            return True
        raise Unsupported("truth of a length")

    def sym_compare_idx(self, op, a, b):
        if not self.seq.aligned():
            raise Unsupported("comparison of an index with a length")
        return {"Lt": True, "LtE": True, "Gt": False, "GtE": False}[op] if isinstance(a, Idx) else {"Lt": False, "LtE": False, "Gt": True, "GtE": True}[op]

    def sym_compare(self, op, a, b):
        o = b if a is self else a
        if isinstance(o, Idx):
            return self.sym_compare_idx(op, a, b)
        if isinstance(o, int) and o <= 0 or o == 1 and (a is self and op == "GtE" or b is self and op == "LtE"):
            # at least one
            if any(not g for g, _ in self.seq.elems):
                return (op in ("Gt", "GtE")) if a is self else (op in ("Lt", "LtE"))
        raise Unsupported("comparison of a length")


class Key(Model):
    """A key of the data."""

    def __init__(self, label, earlier=False, kinds=None, **facts):
        self.label, self.earlier, self.kinds, self.facts = label, earlier, kinds, facts
        self.key, self.tp, self.esc = self, None, None

    def __repr__(self):
        return f"<{self.label}>"

    def fact(self, n):
        if n not in self.facts:
            self.facts[n] = current().choose(2, n) == 1
        return self.facts[n]

    def sym_type(self):
        if self.tp is None:
            self.tp = current().pick(self.kinds or [str, bytes, np.str_, np.bytes_], "type of a key")
        return self.tp

    def sym_isinstance(self, cls):
        return issubclass(self.sym_type(), cls)

    def text(self):
        t = self.sym_type()
        if t not in (str, bytes, np.str_, np.bytes_):
            raise TypeError("not a string")
        if issubclass(t, bytes) and self.fact("undecodable"):
            raise UnicodeDecodeError("utf-8", b"", 0, 1, "invalid start byte")
        return TT(self, str)

    def sym_bool(self):
        raise Unsupported("truth of a key")

    def sym_eq(self, o):
        if o is self:
            return True
        raise Unsupported("comparison of keys")


class TT(Model):
    """The text of a key as a string of some type."""

    def __init__(self, key, tp):
        self.key, self.tp = key, tp

    def __repr__(self):
        return f"<text of {self.key} as {self.tp.__name__}>"

    def sym_isinstance(self, cls):
        return issubclass(self.tp, cls)

    def sym_type(self):
        return self.tp

    def sym_bool(self):
        return not self.key.fact("empty")

    def sym_eq(self, o):
        if o in ("", b""):
            return self.key.fact("empty")
        raise Unsupported("comparison of texts")

    def sym_bytes(self, *a):
        if not issubclass(self.tp, bytes):
            if a in (("utf-8",), ("utf8",)):
                return TT(self.key, bytes)
            raise Unsupported("bytes of a text")
        return TT(self.key, bytes)

    def sym_str(self, *a):
        if issubclass(self.tp, bytes) and not (a and a[0] in ("utf-8", "utf8")):
            raise Unsupported("text of bytes")
        return TT(self.key, str)

    def encode(self, enc="utf-8", *a):
        if a or enc.lower() not in ("utf-8", "utf8") or not issubclass(self.tp, str):
            raise Unsupported("encode")
        return TT(self.key, bytes)


class EName(Model):
    """The escaped text of a key."""

    def __init__(self, key):
        self.key, self.ascii = key, None

    def __repr__(self):
        return f"<name of {self.key}>"

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_type(self):
        return str

    def sym_bool(self):
        return not self.key.fact("empty")

    def sym_len(self):
        if self.key.fact("empty"):
            return 0
        raise Unsupported("length of a name")

    def sym_eq(self, o):
        if o is self:
            return True
        if o == "":
            return self.key.fact("empty")
        if isinstance(o, EName) and not (self.key.facts.get("clash") or o.key.facts.get("clash")):
            return False
        if isinstance(o, (OptEsc, Stale)):
            return False
        raise Unsupported("comparison of names")

    def sym_iter(self):
        return FocusSeq([(True, Char(self))])

    def encode(self, *a):
        return Char(self).encode(*a)


class Char(Model):
    """An arbitrary character of a name."""

    def __init__(self, name):
        self.name = name

    def encode(self, *a):
        if a != ("ascii",):
            raise Unsupported("encoding of a character")
        if self.name.ascii is None:
            self.name.ascii = current().choose(2, "characters that are not ASCII") == 0
        if not self.name.ascii:
            raise UnicodeEncodeError("ascii", "", 0, 1, "ordinal not in range(128)")
        return CharBytes(self.name)


class CharBytes(Model):
    def __init__(self, name):
        self.name = name


class CharArr(Model):
    """The characters of a name as an array of S1."""

    def __init__(self, name):
        self.name = name
        self.key = name.key

    def tobytes(self):
        return NameBytes(self.name)


class NameBytes(Model):
    def __init__(self, name):
        self.name = name

    def decode(self, *a):
        return self.name


class NamesArr(Model):
    """Array of names in the form that MATLAB has them."""

    def __init__(self):
        self.items = []

    def sym_setitem(self, i, v):
        if not isinstance(v, CharArr) or (isinstance(i, Idx) and root(i.elem) is not v.key):
            raise Unsupported("names in another order")
        self.items.append((current().in_generic, v))

    def sym_iter(self):
        return Seq(self.items)


class Stale(Model):
    """Arbitrary names that were in the Group and are none of those used."""

    def __repr__(self):
        return "<other name>"

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_eq(self, o):
        return o is self


class Value(Opaque):
    def __init__(self, key):
        super().__init__(f"value of {key.label}")
        self.key = key


class Data(Model):
    """What is written: a dict of some type."""

    def __init__(self, tp, elems):
        self.tp = tp
        self.vals = {id(k): Value(k) for _, k in elems}
        self.elems = elems

    def __repr__(self):
        return f"<{self.tp.__name__}>"

    def sym_isinstance(self, cls):
        return issubclass(self.tp, cls)

    def sym_type(self):
        return self.tp

    def sym_iter(self):
        return Seq(self.elems)

    keys = sym_iter

    def sym_tuple(self):
        return Seq(self.elems, tuple)

    def sym_list(self):
        return Seq(self.elems)

    def values(self):
        return Seq([(g, self.vals[id(k)]) for g, k in self.elems])

    def items(self):
        return Seq([(g, Pair(k, self.vals[id(k)])) for g, k in self.elems])

    def sym_getitem(self, k):
        if id(k) not in self.vals:
            raise Unsupported("some other key")
        return self.vals[id(k)]

    def get(self, k, d=None):
        return self.sym_getitem(k)

    def sym_len(self):
        return Count(self.sym_iter()) if any(g for g, _ in self.elems) else len(self.elems)

    def sym_bool(self):
        if any(not g for g, _ in self.elems):
            return True
        return bool(self.elems)


class Pair(tuple):
    """A key and its value."""

    def __new__(cls, k, v):
        self = tuple.__new__(cls, (k, v))
        self.key = k.key
        return self


class OptName(Model):
    def __init__(self, label):
        self.label = label
        self.esc = OptEsc(self)

    def __repr__(self):
        return f"<{self.label}>"

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    same = empty = False

    def sym_bool(self):
        return not self.empty

    def sym_len(self):
        if self.empty:
            return 0
        raise Unsupported("length of an option")

    def sym_eq(self, o):
        if isinstance(o, OptName):
            return o is self or self.same
        if o == "":
            return self.empty
        raise Unsupported("comparison of an option")


class OptEsc(Model):
    def __init__(self, of):
        self.of = of

    def __repr__(self):
        return f"<escaped {self.of.label}>"

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_bool(self):
        return not self.of.empty

    def sym_eq(self, o):
        if isinstance(o, OptEsc):
            return o is self or self.of.same
        if isinstance(o, (EName, Stale)):
            return False
        if o == "":
            return self.of.empty
        raise Unsupported("comparison of names")


class Path(Model):
    """The name of an object: none that an option names."""

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_eq(self, o):
        return o is self


class Attrs(Model):
    """The Attributes of what has been written; only H5PATH is set."""

    def modify(self, n, v):
        if n != "H5PATH":
            raise Unsupported("Attribute of an element")

    create = sym_setitem = modify

    def there(self):
        h = current().interp.hooks
        if "H5PATH" not in h:
            h["H5PATH"] = current().choose(2, "H5PATH is there") == 1
        return h["H5PATH"]

    def sym_delitem(self, n):
        if n != "H5PATH":
            raise Unsupported("Attribute of an element")
        if not self.there():
            raise KeyError(n)

    def sym_contains(self, n):
        if n != "H5PATH":
            raise Unsupported("Attribute of an element")
        return self.there()

    def pop(self, n, *d):
        self.modify(n, None)

    def get(self, n, d=None):
        self.modify(n, None)
        return Opaque("H5PATH") if self.there() else d


class Node(Model):
    def __init__(self):
        self.attrs, self.name = Attrs(), Path()

    def sym_isinstance(self, cls):
        if cls in (h5py.Group, h5py.Dataset):
            return current().choose(2, "kind of element") == (cls is h5py.Group)
        raise Unsupported("kind of an element")


class Grp(Model):
    def __init__(self, stale, used):
        self.stale = [Stale()] if stale else []
        self.used, self.entries, self.dropped = used, [], []
        self.name, self.attrs, self.attributes = Path(), Attrs(), None

    def __repr__(self):
        return "<Group of the container>"

    def sym_isinstance(self, cls):
        return issubclass(h5py.Group, cls)

    def listing(self):
        """Other names, and those used, if they were there or are."""
        now = [(g, n) for g, n, _ in self.entries]
        if self.used:
            for g, n in current().interp.hooks["names"]():
                if not any(m is n for _, m in now) and not any(m is n for m in self.dropped):
                    now.append((g, n))
        h = current().interp.hooks
        if "order" not in h:
            h["order"] = current().choose(2, "order of the Group")
        return ([(True, s) for s in self.stale] + now)[::-1 if h["order"] else 1]

    def sym_iter(self):
        return Seq(self.listing())

    keys = sym_iter

    def sym_set(self):
        return Seq(self.listing(), set)

    def sym_list(self):
        return Seq(self.listing())

    sym_tuple = sym_list

    def sym_delitem(self, n):
        if isinstance(n, Stale):
            self.stale = []
        elif any(m is n for _, m in self.listing()):
            self.dropped.append(n)
            self.entries = [e for e in self.entries if e[1] is not n]
        else:
            raise KeyError("not there")

    def sym_contains(self, n):
        if isinstance(n, (EName, OptEsc, Stale)):
            return any(m is n for _, m in self.listing())
        raise Unsupported("membership in a Group")

    def sym_getitem(self, n):
        for _, m, v in self.entries:
            if m is n:
                return v[0]
        if self.sym_contains(n):
            return Node()
        raise KeyError("not there")

    def get(self, n, d=None):
        return self.sym_getitem(n) if self.sym_contains(n) else d


class Parent(Model):
    """Where the container is to go."""

    def __init__(self, at, name):
        self.at, self.nm = at, name

    def check(self, n):
        if n is not self.nm:
            raise Unsupported("another name in the Group of the container")

    def sym_isinstance(self, cls):
        return issubclass(h5py.Group, cls)

    def get(self, n, d=None):
        self.check(n)
        return d if self.at is None else self.at

    def sym_contains(self, n):
        self.check(n)
        return self.at is not None

    def sym_getitem(self, n):
        self.check(n)
        if self.at is None:
            raise KeyError("not there")
        return self.at

    def sym_delitem(self, n):
        self.sym_getitem(n)
        self.at = None

    def create_group(self, n, *a, **k):
        self.check(n)
        if self.at is not None:
            raise ValueError("Unable to create group (name already exists)")
        self.at = Grp(False, False)
        return self.at

    def require_group(self, n):
        self.check(n)
        if self.at is None:
            return self.create_group(n)
        if not isinstance(self.at, Grp):
            raise TypeError("Incompatible object (Dataset) already exists")
        return self.at


class OldDataset(Model):
    def sym_isinstance(self, cls):
        return issubclass(h5py.Dataset, cls)


class Attr(Model):
    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    def sym_iter(self):
        if self.kind == "value" and isinstance(self.value, NamesArr):
            return self.value.sym_iter()
        raise Unsupported("going over an Attribute")


class Attributes(Model):
    def __init__(self, tab):
        self.tab = tab

    def sym_getitem(self, k):
        return Attr(*self.tab[k]) if k in self.tab else None

    def get(self, k, d=None):
        return self.sym_getitem(k) if k in self.tab else d

    def sym_contains(self, k):
        raise Unsupported("membership in the Attributes read")


class Joined(Model):
    """The types of the keys as a string."""

    def __init__(self, seq):
        self.seq = seq

    def sym_isinstance(self, cls):
        return issubclass(str, cls) or issubclass(bytes, cls)

    def text(self, x):
        return x.decode() if isinstance(x, bytes) else x

    def decode(self, *a):
        return self

    def sym_len(self):
        return Count(self.seq) if any(g for g, _ in self.seq.elems) else len(self.seq.elems)

    def sym_getitem(self, i):
        if isinstance(i, Idx):
            return self.text(self.seq.image_of(i.elem))
        if any(g for g, _ in self.seq.elems) or not isinstance(i, int):
            raise Unsupported("index of the types of the keys")
        return self.text(self.seq.elems[i][1])

    def sym_iter(self):
        return Seq([(g, self.text(x)) for g, x in self.seq.elems])

    def sym_bool(self):
        return bool(self.seq.elems)


class Made(Model):
    """An object made by a constructor of the standard library."""

    def __init__(self, tp, args):
        self.tp, self.args = tp, args

    def __repr__(self):
        return f"<{self.tp.__name__} of {self.args}>"

    def sym_isinstance(self, cls):
        return issubclass(self.tp, cls)

    def sym_type(self):
        return self.tp

    def sym_getattr(self, n):
        if n in self.args:
            return self.args[n]
        raise AttributeError(n)


class Opts(Model):
    store_python_metadata = True

    def __init__(self, ctx, matlab):
        self.matlab_compatible = matlab
        self.delete_unused_variables = ctx.choose(2, "deleting unused") == 1
        self.dict_like_keys_name, self.dict_like_values_name = OptName("name for keys"), OptName("name for values")
        self.group_for_references = "/#refs#"


class Handle(Model):
    def __init__(self, ctx, matlab):
        self.options, self.ctx = Opts(ctx, matlab), ctx

    def write_data(self, grp, name, data, type_string=None, *a, **k):
        if not isinstance(grp, Grp):
            raise Unsupported("writing elsewhere")
        if not isinstance(name, (EName, OptEsc)):
            raise Unsupported("name of another kind")
        self.ctx.oblige("write:elements get their own type string", type_string is None and not a and not k)
        if isinstance(data, (FocusSeq, tuple, list)):
            data = (data.pytype, list(data.elems)) if isinstance(data, FocusSeq) else (type(data), [(False, x) for x in data])
        n = Node()
        again = any(m is name for _, m, _ in grp.entries)
        self.ctx.oblige("write:each name is used once", not again, repr(name))
        grp.entries.append((self.ctx.in_generic, name, (n, data)))
        return n

    def read_data(self, grp, name, *a, **k):
        if not isinstance(grp, Grp):
            raise Unsupported("reading elsewhere")
        for _, m, (_, data) in grp.entries:
            if m is name:
                if isinstance(data, tuple):
                    return Seq(data[1], data[0])
                return data
        if isinstance(name, Stale) and grp.stale:
            return Opaque("old value")
        raise KeyError("not there")


def setup(ctx):
    it = ctx.interp
    it.list_factory = Seq
    it.hooks["set_factory"] = lambda: Seq((), set)
    it.hooks["segment_empty"] = lambda x: False
    it.hooks["focus_len"] = Count
    it.hooks["join"] = lambda sep, seq: Joined(seq) if not sep else current() and unsup("join")
    m = it.models

    def to(tp):
        def go(x=()):
            if isinstance(x, FocusSeq):
                return Seq(x.take(), tp)
            if isinstance(x, Model):
                f = getattr(x, "sym_" + tp.__name__, None)
                s = f() if f is not None else x.sym_iter()
                return Seq(s.take(), tp)
            if isinstance(x, (list, tuple, set)) and tp is set:
                return set(x)
            if x == () and tp is set:
                return Seq((), set)
            return tp(it.iterate(x))

        return go

    m[set], m[frozenset] = to(set), to(frozenset)
    m[collections.deque] = lambda x=(), maxlen=None: Seq(seq(x).take(), collections.deque)
    m[tuple], m[list] = to(tuple), to(list)

    def seq(x):
        if not isinstance(x, FocusSeq):
            raise Unsupported("elements of something else")
        return x

    def mapping(tp):
        def go(x=(), **k):
            if isinstance(x, (dict, tuple)) and not x and not isinstance(x, Model):
                return tp(**k)
            if isinstance(x, Made) and isinstance(x.args, list) and not k:
                return Made(tp, x.args)
            if isinstance(x, (list, tuple)) and not k:
                return Made(tp, [(False, p) for p in x])
            if not isinstance(x, FocusSeq) or k:
                raise Unsupported("mapping of something else")
            return Made(tp, x.take())

        return go

    for tp in (dict, collections.OrderedDict, collections.Counter):
        m[tp] = mapping(tp)
    m[collections.ChainMap] = lambda *a: Made(collections.ChainMap, a[0].elems if len(a) == 1 and isinstance(a[0], Star) else [(False, x) for x in a])

    def star_dict(tp, names):
        def go(*a, **k):
            k = dict(zip(names, a)) | k
            if set(k) - set(names):
                raise TypeError("unexpected argument")
            return Made(tp, k)

        return go

    def slice_like(tp):
        def go(*a):
            if len(a) == 1:
                a = (None, *a) if tp is slice else (0, *a)
            if len(a) == 2:
                a = (*a, None if tp is slice else 1)
            return Made(tp, dict(zip(("start", "stop", "step"), a)))

        return go

    m[slice], m[range] = slice_like(slice), slice_like(range)
    for tp, names in FIELDS.items():
        m[tp] = star_dict(tp, names)
    m[importlib.import_module] = lambda n: {"fractions": fractions}[n]
    m[h5py.special_dtype] = h5py.special_dtype
    m[np.empty] = lambda shape, dtype=None: NamesArr() if dtype is not None and h5py.check_vlen_dtype(np.dtype(dtype)) == np.dtype("S1") else unsup("array")

    def array(x, dtype=None, *a, **k):
        if isinstance(x, FocusSeq) and x.elems and isinstance(x.elems[0][1], CharBytes) and dtype is not None and np.dtype(dtype) == np.dtype("S1"):
            return CharArr(x.elems[0][1].name)
        return unsup("array")

    m[np.array] = array

    def convert_to_str(x):
        if isinstance(x, Key):
            return x.text()
        if isinstance(x, TT):
            return TT(x.key, str)
        if isinstance(x, Joined):
            return x
        if isinstance(x, (bytes, str)):
            return x.decode() if isinstance(x, bytes) else x
        return unsup("text of something else")

    def escape_path(x):
        if isinstance(x, OptName):
            return x.esc
        if isinstance(x, Key):
            if x.sym_type() not in (str, np.str_):
                raise TypeError("not a path")
            x = TT(x, str)
        if isinstance(x, TT) and issubclass(x.tp, str):
            if x.key.esc is None:
                x.key.esc = EName(x.key)
            return x.key.esc
        return unsup("escaping something else")

    def unescape_path(x):
        if isinstance(x, EName):
            return TT(x.key, str)
        if isinstance(x, OptEsc):
            return x.of
        if isinstance(x, Stale):
            return Opaque("other key", (str,), True)
        return unsup("unescaping something else")

    def as_type(tp):
        def go(x):
            if isinstance(x, TT):
                return TT(x.key, tp)
            if isinstance(x, Path):
                return Opaque("name", (tp,), True)
            return unsup("conversion of something else")

        return go

    def attr_string(x):
        if x is None:
            return None
        if not isinstance(x, Attr):
            return unsup("Attribute")
        if x.kind != "string":
            return None
        return x.value

    def attr_strings(x):
        if x is None:
            return None
        if not isinstance(x, Attr):
            return unsup("Attribute")
        if x.kind != "string_array":
            return None
        return Seq(x.value.take()) if isinstance(x.value, FocusSeq) else list(x.value)

    it.by_name.update({
        "convert_to_str": convert_to_str, "escape_path": escape_path, "unescape_path": unescape_path, "convert_to_numpy_bytes": as_type(np.bytes_),
        "convert_to_numpy_str": as_type(np.str_), "convert_attribute_to_string": attr_string, "convert_attribute_to_string_array": attr_strings,
    })
    return it


def unsup(what):
    raise Unsupported(what)


FIELDS = {
    datetime.timedelta: ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"),
    datetime.date: ("year", "month", "day"),
    datetime.time: ("hour", "minute", "second", "microsecond", "tzinfo", "fold"),
    datetime.datetime: ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo", "fold"),
    datetime.timezone: ("offset", "name"),
    fractions.Fraction: ("numerator", "denominator"),
}
NEEDED = {
    datetime.timedelta: FIELDS[datetime.timedelta][:3], datetime.time: FIELDS[datetime.time][:5], datetime.datetime: FIELDS[datetime.datetime][:8],
}

# -- dicts ---------------------------------------------------------------
BAD = {
    "of another type": dict(kinds=[int]),
    "that is not UTF-8": dict(kinds=[bytes, np.bytes_], undecodable=True),
    "that is empty": dict(empty=True, undecodable=False),
    "whose name is that of an earlier one": dict(clash=True, empty=False, undecodable=False),
}
GOOD = dict(empty=False, clash=False, undecodable=False)


def keys_of(ctx, bad, kind=None):
    """An arbitrary sequence of keys; the first that is bad, if any, is the focus."""
    before = Key("earlier keys", earlier=True, **GOOD)
    if bad == "none at all":
        return []
    if bad is None:
        here, after = Key("the key", kinds=kind, **GOOD), Key("later keys", **GOOD)
    else:
        here = Key(f"the key {bad}", **BAD[bad])
        after = Key("later keys", kinds=[str, bytes, np.str_, np.bytes_, int])
    out = []
    if (bad or "").startswith("whose") or ctx.choose(2, "earlier ones") == 1:
        out.append((True, before))
    out.append((False, here))
    if ctx.choose(2, "later ones") == 1:
        out.append((True, after))
    return out


def proc_dict(tp, bad, cls, matlab, kind=None):
    def go(ctx):
        from hdf5storage import Marshallers as M

        m = ctx.interp.instantiate(getattr(M, cls), [], {})
        it = setup(ctx)
        data = Data(tp, keys_of(ctx, bad, kind))
        it.hooks["data"] = data
        f = Handle(ctx, matlab)
        named = bad in (None, "none at all")
        o = f.options
        it.hooks["names"] = lambda: [(g, it.by_name["escape_path"](TT(k, str))) for g, k in data.elems] if named else [(False, o.dict_like_keys_name.esc), (False, o.dict_like_values_name.esc)]
        old = ctx.choose(3, "nothing, a Dataset or a Group is there")
        name = Opaque("name of the container", (str,), True)
        # names that are left in the Group are read as well
        left = named and not o.delete_unused_variables
        grp = Parent([None, OldDataset(), None][old], name)
        if old == 2:
            grp.at = Grp(not left, ctx.choose(2, "names used were there") == 1)
        stored = []
        it.by_name["set_attributes_all"] = lambda t, attributes, discard_others=True: stored.append((t, attributes))
        ts = ctx.pick([None, m.type_to_typestring[tp]], "type string")
        k = 0 if named else ctx.choose(4, "names differ, are the same, one is empty")
        o.dict_like_keys_name.same = o.dict_like_values_name.same = k == 1
        (o.dict_like_keys_name if k == 2 else o.dict_like_values_name).empty = k >= 2
        was = grp.at
        r, e = run(it, type(m).write, [m, f, grp, name, data, ts])
        if k:
            ctx.oblige("write:names that are no two names are refused with ValueError", isinstance(e, ValueError), f"{e!r} {r!r}")
            ctx.oblige("write:nothing is changed when refused", grp.at is was and not stored and not (isinstance(was, Grp) and (was.entries or was.dropped)))
            return
        ctx.oblige("write:no error", e is None, repr(e))
        if e is not None:
            return
        g = grp.at
        ctx.oblige("write:there is a Group and it is returned", isinstance(g, Grp) and r is g)
        ctx.oblige("write:its Attributes are set once", len(stored) == 1 and stored[0][0] is g)
        if not isinstance(g, Grp) or len(stored) != 1:
            return
        attrs = {k: v for k, v in stored[0][1].items()}
        ctx.oblige("write:its type is kept", attrs.get("Python.Type") == ("string", m.type_to_typestring[tp]), repr(attrs.get("Python.Type")))
        for _, n in it.hooks["names"]():
            ctx.oblige("write:each name has been written", any(k is n for _, k, _ in g.entries), repr(n))
        y, e = run(it, type(m).read, [m, f, g, Attributes(attrs)])
        ctx.oblige("read:no error", e is None, repr(e))
        if e is not None:
            return
        if type(y) is tp and not y:
            y = Made(tp, [])
        ok = isinstance(y, Made) and y.tp is tp
        ctx.oblige("read:of the same type", ok, repr(y))
        if not ok:
            return
        ctx.oblige("read:as many items, in order", [gg for gg, _ in y.args] == [gg for gg, _ in data.elems], f"{y!r}")
        if len(y.args) != len(data.elems):
            return
        for (_, k), (_, p) in zip(data.elems, y.args):
            kk, v = p
            ctx.oblige("read:each key has its value", v is data.vals[id(k)], f"{k!r} {p!r}")
            same = kk is k or isinstance(kk, TT) and kk.key is k and kk.tp is k.sym_type()
            ctx.oblige("read:each key is as it was", same, f"{k!r} {kk!r}")
        ctx.cover("read")

    return go


# -- what is written as a list -----------------------------------------
class Slots(Model):
    """An object array of one dimension."""

    def __init__(self, n):
        self.n, self.elems = n, None

    def sym_isinstance(self, cls):
        return issubclass(np.ndarray, cls)

    def sym_setitem(self, i, v):
        if i == slice(None) and isinstance(v, FocusSeq):
            if not (isinstance(self.n, Count) and self.n.seq.aligned() and Seq(v.elems).aligned() or self.n == len(v.elems) and not any(g for g, _ in v.elems)):
                raise Unsupported("assignment of a sequence of another length")
            self.elems = list(v.elems)
        elif isinstance(i, int) and not any(g for g, _ in current().interp.hooks["data"].elems) and i == len(self.elems or []):
            self.elems = (self.elems or []) + [(False, v)]
        elif isinstance(i, Idx):
            self.elems = (self.elems or []) + [(current().in_generic, v)]
            if root(v) is not root(i.elem):
                raise Unsupported("elements in another order")
        else:
            raise Unsupported("assignment to an array")

    def sym_iter(self):
        return Seq(self.elems, np.ndarray)

    def tolist(self):
        return Seq(self.elems)

    def sym_len(self):
        return Count(Seq(self.elems)) if any(g for g, _ in self.elems) else len(self.elems)

    def sym_list(self):
        return Seq(self.elems)

    def sym_tuple(self):
        return Seq(self.elems, tuple)


class Elements(Seq):
    """The list (or set, ...) that is written."""

    def sym_type(self):
        return self.pytype


class Maps(Model):
    """A ChainMap."""

    def __init__(self, s):
        self.maps = s

    def sym_isinstance(self, cls):
        return issubclass(collections.ChainMap, cls)

    def sym_type(self):
        return collections.ChainMap


LISTS = {list: "PythonListMarshaller", tuple: "PythonTupleSetDequeMarshaller", set: "PythonTupleSetDequeMarshaller", frozenset: "PythonTupleSetDequeMarshaller",
         collections.deque: "PythonTupleSetDequeMarshaller", collections.ChainMap: "PythonChainMapMarshaller"}


def proc_list(tp):
    def go(ctx):
        from hdf5storage import Marshallers as M

        m = ctx.interp.instantiate(getattr(M, LISTS[tp]), [], {})
        it = setup(ctx)
        n = ctx.choose(4, "elements")
        elems = [(g, Key(label)) for g, label in ((True, "earlier elements"), (False, "the element"), (True, "later elements"))][n & 1 and 0 or 1:3 if n & 2 else 2]
        if n == 0 and tp is not collections.ChainMap and ctx.choose(2, "none") == 1:
            elems = []
        x = Elements(elems, list if tp is collections.ChainMap else tp)
        it.hooks["data"] = x
        data = Maps(x) if tp is collections.ChainMap else x
        f, grp, name, made = (Opaque(n) for n in ("handle", "Group", "name", "what was made"))
        ts = ctx.pick([None, m.type_to_typestring[tp]], "type string")
        stored = []

        def slots(shape, *a, **k):
            dt = k.get("dtype", a[-1] if a else None)
            if dt is None or np.dtype(dt) != np.dtype(object):
                raise Unsupported("array")
            shape = shape[0] if isinstance(shape, tuple) and len(shape) == 1 else shape
            return Slots(shape)

        it.models[np.zeros] = it.models[np.empty] = slots
        it.models[np.full] = lambda shape, v, dtype=None: slots(shape, dtype)

        def write(self, f_, grp_, name_, data_, type_string=None):
            ctx.oblige("write:the data goes where it was to go", self is m and f_ is f and grp_ is grp and name_ is name)
            stored.append((data_, type_string))
            return made

        def read(self, f_, made_, attributes_):
            if self is not m or made_ is not made or not stored:
                raise Unsupported("reading something else")
            return stored[0][0]

        it.by_name["NumpyScalarArrayMarshaller.write"] = write
        it.by_name["NumpyScalarArrayMarshaller.read"] = read
        r, e = run(it, type(m).write, [m, f, grp, name, data, ts])
        ctx.oblige("write:no error", e is None, repr(e))
        if e is not None:
            return
        ctx.oblige("write:stored once and what was made is returned", len(stored) == 1 and r is made)
        if len(stored) != 1:
            return
        arr, t = stored[0]
        ctx.oblige("write:the type is kept", t == m.type_to_typestring[tp], repr(t))
        if not isinstance(arr, Slots):
            raise Unsupported("stored as something else")
        if arr.elems is None:
            arr.elems = []
        y, e = run(it, type(m).read, [m, f, made, Attributes({"Python.Type": ("string", t)})])
        ctx.oblige("read:no error", e is None, repr(e))
        if e is not None:
            return
        if tp is collections.ChainMap:
            got = y.args if isinstance(y, Made) and y.tp is tp else None
        else:
            got = y.elems if isinstance(y, FocusSeq) and y.pytype is tp else None
        if got is None and type(y) is tp and not y:
            got = []
        ctx.oblige("read:of the same type", got is not None, repr(y))
        if got is None:
            return
        same = len(got) == len(elems) and all(g == h and a is b for (g, a), (h, b) in zip(got, elems))
        ctx.oblige("read:the same elements in order", same, repr(got))
        ctx.cover("read")

    return go


# -- what is written as a dict with fixed keys --------------------------
class Zone(Made):
    """A timezone, with a name of its own or not."""

    def sym_getattr(self, n):
        if n in ("__reduce__", "utcoffset", "tzname", "__getinitargs__"):
            return getattr(self, {"__getinitargs__": "initargs"}.get(n, n))
        raise AttributeError(n)

    def initargs(self):
        return self.__reduce__()[1]

    def __reduce__(self):
        return (datetime.timezone, tuple(self.args[n] for n in ("offset", "name") if n in self.args))

    def utcoffset(self, dt):
        return self.args["offset"]

    def tzname(self, dt):
        return self.args.get("name", Opaque("name made of the offset", (str,), True))


OBJECTS = {slice: "PythonSliceRangeMarshaller", range: "PythonSliceRangeMarshaller", fractions.Fraction: "PythonFractionMarshaller"}
OBJECTS.update({t: "PythonDatetimeObjsMarshaller" for t in FIELDS if t is not fractions.Fraction})


def proc_object(tp):
    def go(ctx):
        from hdf5storage import Marshallers as M

        m = ctx.interp.instantiate(getattr(M, OBJECTS[tp]), [], {})
        it = setup(ctx)
        it.list_factory = None
        needed = ("start", "stop", "step") if tp in (slice, range) else NEEDED.get(tp, FIELDS.get(tp))
        names = FIELDS.get(tp, needed)
        if tp is datetime.timedelta:
            names = needed
        args = {n: Opaque(n) for n in names}
        if tp is datetime.timezone:
            if ctx.choose(2, "name") == 0:
                del args["name"]
            needed = ("offset",)
            x = Zone(tp, args)
        else:
            x = Made(tp, args)
        f, grp, name, made = (Opaque(n) for n in ("handle", "Group", "name", "what was made"))
        want = tp.__name__ if tp in (slice, range) else f"{tp.__module__}.{tp.__name__}"
        ts = ctx.pick([None, want], "type string")
        stored = []

        def write(self, f_, grp_, name_, data_, type_string=None):
            ctx.oblige("write:the data goes where it was to go", self is m and f_ is f and grp_ is grp and name_ is name)
            stored.append((data_, type_string))
            return made

        def read(self, f_, made_, attributes_):
            if self is not m or made_ is not made or not stored:
                raise Unsupported("reading something else")
            return dict(stored[0][0])

        it.by_name["PythonDictMarshaller.write"] = write
        it.by_name["PythonDictMarshaller.read"] = read
        r, e = run(it, type(m).write, [m, f, grp, name, x, ts])
        ctx.oblige("write:no error", e is None, repr(e))
        if e is not None:
            return
        ctx.oblige("write:stored once and what was made is returned", len(stored) == 1 and r is made)
        if len(stored) != 1:
            return
        d, t = stored[0]
        if not (type(d) is dict and all(isinstance(k, str) for k in d)):
            raise Unsupported("stored as something else")
        ctx.oblige("write:the type is kept", t == want, repr(t))
        y, e = run(it, type(m).read, [m, f, made, Attributes({"Python.Type": ("string", t)})])
        ctx.oblige("read:no error", e is None, repr(e))
        if e is not None:
            return
        ok = isinstance(y, Made) and y.tp is tp
        ctx.oblige("read:of the same type", ok, repr(y))
        if not ok:
            return
        for n in needed:
            ctx.oblige(f"read:{n} is as it was", y.args.get(n) is args[n], repr(y))
        for n in y.args:
            if n not in needed:
                named = tp is datetime.timezone and isinstance(y.args[n], Opaque) and "name" not in args and y.args[n].label == "name made of the offset"
                ctx.oblige(f"read:{n} is as it was", named or y.args[n] is args.get(n), repr(y))
        if tp is datetime.timezone:
            ctx.oblige("read:the name is as it was", ("name" in args) <= ("name" in y.args))
        ctx.cover("read")

    return go


def procedures(tier):
    out = []
    cov = dict(must_cover={"read"}, max_paths=100000)
    for tp, cls in ((dict, "PythonDictMarshaller"), (collections.OrderedDict, "PythonDictMarshaller"), (collections.Counter, "PythonCounterMarshaller")):
        for matlab in (False, True):
            w = f"{tp.__name__}{', MATLAB' if matlab else ''}, "
            for kind in (str, bytes, np.str_, np.bytes_):
                out.append((f"{w}keys that are names, one of {kind.__name__}", proc_dict(tp, None, cls, matlab, [kind]), cov))
            for bad in ("none at all", *BAD):
                out.append((w + ("no keys" if bad == "none at all" else f"a key {bad}"), proc_dict(tp, bad, cls, matlab), cov))
    for tp in LISTS:
        out.append((f"{LISTS[tp]}: {tp.__name__}", proc_list(tp), cov))
    for tp in OBJECTS:
        out.append((f"{OBJECTS[tp]}: {tp.__name__}", proc_object(tp), cov))
    return out
