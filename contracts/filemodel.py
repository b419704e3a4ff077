"""Contracts of the methods of File, over contracts of everything they call.

Ghost state: the trace of accesses to the HDF5 file (each with the locks held),
which path object denotes which location.  The same procedures establish
C03 (references Group), C06 (closed/read-only), C20 (lock discipline),
C21 (single operations of the mapping) and C23 (batches); each property's
module selects the obligations that belong to it.

Contracts used for callees: pathesc.process_path (C02), LowLevelFile.read_data
and .write_data (read/write exactly the named location; may raise anything),
h5py.File/Group methods (may raise), threading.Lock, posixpath.
"""
import collections.abc
import contextlib
import itertools
import posixpath

import z3

from contracts import c04
from pyvc.engine import FocusSeq, Model, Opaque, PathEnd, SBool, SInt, SStr, Unsupported, zb, zs

TRUSTED = [
    "process_path (contract C02): for every object it either raises TypeError/ValueError or returns (group, target) denoting one location",
    "LowLevelFile.read_data/write_data: access only the named location of the file they were built for, may raise anything",
    "h5py.File, h5py.Group: get/require_group/in/del/len/iter/flush/close act on the named location, may raise; a File opened with "
    "mode='r' never changes the bytes of the file",
    "threading.Lock/RLock: mutual exclusion",
    "posixpath.commonpath of two absolute paths is '/' iff their first components differ, and equals the first iff it is an ancestor or equal",
]


class Atom:
    """A piece of a path: neither empty nor bounded by slashes."""

    def __init__(self, name, multi):
        self.name, self.multi = name, multi

    def __repr__(self):
        return f"<{self.name}>"


class PStr(Model):
    """A str built from literals and atoms."""

    def __init__(self, *parts):
        out = []
        for p in parts:
            for q in p.parts if isinstance(p, PStr) else (p,):
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != "":
                    out.append(q)
        self.parts = tuple(out)

    def __repr__(self):
        return "".join(p if isinstance(p, str) else repr(p) for p in self.parts)

    def key(self):
        return repr(self)

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_type(self):
        return str

    def sym_bool(self):
        return bool(self.parts)

    def sym_str(self):
        return self

    def first(self):
        return self.parts[0] if self.parts else ""

    def canon(self):
        """The absolute location named, relative to the root."""
        out = ["/"]
        for p in self.parts:
            if isinstance(p, str):
                for c in p:
                    if c == "/" and isinstance(out[-1], str) and out[-1].endswith("/"):
                        continue
                    out.append(c)
            else:
                out.append(p)
        return PStr(*out)

    def comps(self):
        """Components between slashes, or None if some are not told apart."""
        out = [[]]
        for p in self.parts:
            if isinstance(p, str):
                bits = p.split("/")
                if bits[0]:
                    out[-1].append(bits[0])
                for b in bits[1:]:
                    out.append([b] if b else [])
            elif p.multi:
                return None
            else:
                out[-1].append(p)
        return [tuple(c) for c in out]

    def sym_eq(self, o):
        if isinstance(o, str):
            o = PStr(o)
        if not isinstance(o, PStr):
            return False
        if self.parts == o.parts:
            return True
        a, b = self.comps(), o.comps()
        for x, y in ((a, o), (b, self)):
            if x is not None and len(x) == 1 and any(isinstance(q, str) and "/" in q for q in y.parts):
                return False
        if not self.parts or not o.parts:
            return False
        for x, y in ((self, o), (o, self)):
            if all(isinstance(q, str) and set(q) == {"/"} for q in x.parts) and any(isinstance(q, Atom) for q in y.parts):
                return False
        if a is not None and b is not None:
            if len(a) != len(b):
                return False
            conj = []
            for x, y in zip(a, b):
                if x == y:
                    continue
                if not x or not y or all(isinstance(q, str) for q in x + y):
                    return False
                conj.append(same_e(x, y))
            return SBool(z3.And(*conj))
        return SBool(same_e(self.parts, o.parts))

    def sym_binop(self, op, o, refl):
        if op != "Add" or not isinstance(o, (str, PStr)):
            return NotImplemented
        return PStr(o, self) if refl else PStr(self, o)

    def sym_getitem(self, i):
        if isinstance(i, slice) and i.step is None and i.stop is None and isinstance(i.start, int) and i.start >= 0:
            f = self.first()
            if isinstance(f, str) and len(f) >= i.start:
                return PStr(f[i.start:], *self.parts[1:])
            if i.start == 0:
                return self
        if i == 0 and isinstance(self.first(), str) and self.parts:
            return self.first()[0]
        if i == -1 and self.parts and isinstance(self.parts[-1], str):
            return self.parts[-1][-1]
        if i in (0, -1) and self.parts:
            return PStr(Atom(f"char{i} of {self!r}", False))
        raise Unsupported("part of a path")

    def sym_contains(self, x):
        if x == "/":
            if any(isinstance(p, str) and "/" in p for p in self.parts):
                return True
            m = [p for p in self.parts if isinstance(p, Atom) and p.multi]
            return SBool(z3.Or(*[z3.Bool(f"slash in {p.name}") for p in m])) if m else False
        raise Unsupported("membership in a path")

    def startswith(self, x):
        if isinstance(x, str):
            f = self.first()
            if x and set(x) == {"/"}:
                if isinstance(f, str):
                    return f.startswith(x) if len(f) >= len(x) or self.parts[1:] else False
                return False
        if isinstance(x, PStr) and x.parts and isinstance(x.parts[-1], str) and x.parts[-1].endswith("/"):
            base = PStr(*x.parts[:-1], x.parts[-1][:-1])
            return SBool(below_e(base, self, strict=True))
        raise Unsupported("startswith of a path")

    def endswith(self, x):
        if isinstance(x, str) and x and set(x) == {"/"}:
            f = self.parts[-1] if self.parts else ""
            return isinstance(f, str) and f.endswith(x)
        raise Unsupported("endswith of a path")

    def lstrip(self, x=None):
        if x != "/":
            raise Unsupported("lstrip")
        f = self.first()
        return PStr(f.lstrip("/"), *self.parts[1:]) if isinstance(f, str) else self

    def rstrip(self, x=None):
        if x != "/":
            raise Unsupported("rstrip")
        f = self.parts[-1] if self.parts else ""
        return PStr(*self.parts[:-1], f.rstrip("/")) if isinstance(f, str) else self

    def strip(self, x=None):
        return self.lstrip(x).rstrip(x)


def same_e(a, b):
    x, y = sorted([repr(a), repr(b)])
    return z3.Bool(f"same {x} {y}")


def eq_e(r, p):
    return zb(r.sym_eq(p))


def below_e(r, p, strict=False):
    """Whether p is below r or, unless strict, equal to it (absolute paths)."""
    if r.parts == p.parts:
        return z3.BoolVal(not strict)
    x, y = r.comps(), p.comps()
    if x is not None and y is not None and len(y) <= len(x):
        b = z3.BoolVal(False)
    else:
        b = z3.Bool(f"strictly below {r.key()} {p.key()}")
    return b if strict else z3.Or(b, eq_e(r, p))


def first_e(r, p):
    """Whether two absolute paths have the same first component."""
    if r.parts == p.parts:
        return z3.BoolVal(True)
    x, y = r.comps(), p.comps()
    if x is not None and y is not None:
        return zb(PStr(*x[1]).sym_eq(PStr(*y[1])))
    x, y = sorted([r.key(), p.key()])
    return z3.Bool(f"first component {x} {y}")


def infile_e(loc):
    return z3.Bool(f"in file {loc.key()}")


def pstr(x):
    if isinstance(x, str):
        return PStr(x)
    if isinstance(x, PStr):
        return x
    raise Unsupported(f"path {x!r}")


def join2(a, b):
    a, b = pstr(a), pstr(b)
    if isinstance(b.first(), str) and b.first().startswith("/"):
        return b
    if not a.parts or a.endswith("/"):
        return PStr(a, b)
    return PStr(a, "/", b)


class H5Error(Exception):
    """Stands for any other exception of HDF5."""


class Lock(Model):
    def __init__(self, fm, reentrant):
        self.fm, self.reentrant, self.n = fm, reentrant, 0

    def acquire(self, blocking=True, timeout=-1):
        if self.n and not self.reentrant:
            if blocking is False or timeout != -1:
                return False
            self.fm.oblige("C20", "no self-deadlock", False)
            raise PathEnd
        if self.n == 0:
            self.fm.sections.append([])
        self.n += 1
        return True

    def release(self):
        if not self.n:
            self.fm.oblige("C20", "release of a held lock only", False)
            raise RuntimeError("release unlocked lock")
        self.n -= 1

    def locked(self):
        return self.n > 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def sym_bool(self):
        return True


class Value(Model):
    """What reading a location gives."""

    def __init__(self, loc):
        self.loc = loc


class PathObj(Model):
    """An object given as path."""

    def __init__(self, fm, label, of=None):
        self.fm, self.label = fm, label
        if of is not None:
            self.of, self.seq = of, False
            return
        self.of = None
        self.seq = None
        self.status = None

    def decide(self):
        if self.of is not None:
            self.status = self.of.decide()
            self.g, self.t = getattr(self.of, "g", None), self.of.t
            return self.status
        if self.status is None:
            fm, ctx = self.fm, self.fm.ctx
            self.status = ctx.pick(["ok", "TypeError", "ValueError"], f"path {self.label}")
            self.t = PStr(Atom(f"target {self.label}", False))
            if self.status == "ok":
                a = Atom(f"group {self.label}", True)
                self.g = PStr("/", a) if fm.ctx.in_generic else fm.ctx.pick([PStr(a), PStr("/", a), "/", "//"], f"group of {self.label}")
        return self.status

    def loc(self):
        return join2(self.g, self.t).canon()

    def sym_isinstance(self, cls):
        if cls is object:
            return True
        if issubclass(cls, BaseException):
            return False
        if self.seq is None:
            self.seq = self.fm.ctx.choose(2, f"{self.label} is a list") == 1
        if cls in (list, collections.abc.Sequence):
            return self.seq
        if cls is collections.abc.Hashable:
            return not self.seq
        raise Unsupported(f"isinstance of a path with {cls}")

    def sym_tuple(self):
        return PathObj(self.fm, self.label, self)

    def sym_list(self):
        return PathObj(self.fm, self.label, self)

    def sym_eq(self, o):
        if self is o:
            return True
        raise Unsupported("comparison of paths")


class Common(Model):
    """posixpath.commonpath of two absolute paths."""

    def __init__(self, fm, a, b):
        self.fm, self.a, self.b = fm, a, b
        fm.axioms(a, b)
        fm.axioms(b, a)

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_eq(self, o):
        a, b = self.a, self.b
        if o == "/" if isinstance(o, str) else False:
            return SBool(z3.Not(first_e(a, b)))
        if isinstance(o, PStr) and o.canon().key() == a.key():
            return SBool(below_e(a, b))
        if isinstance(o, PStr) and o.canon().key() == b.key():
            return SBool(below_e(b, a))
        raise Unsupported("comparison of a common path")


class MDict(Model):
    """The mapping given to writes."""

    def __init__(self, fm, kind, seq, ask):
        self.fm, self.kind, self.seq, self.ask = fm, kind, seq, ask

    def sym_isinstance(self, cls):
        t = {"dict": dict, "mapping": collections.abc.Mapping, "other": None}[self.kind]
        if cls is object:
            return True
        return t is not None and issubclass(t, cls)

    def items(self):
        self.fm.foreign()
        if self.kind == "other":
            raise AttributeError("items")
        return self.seq

    def keys(self):
        self.fm.foreign()
        if self.kind == "other":
            raise AttributeError("keys")
        return FocusSeq([(g, p) for g, (p, _) in self.seq.elems])

    def sym_getitem(self, k):
        for _, (p, v) in self.seq.elems:
            if p is k:
                return v
        raise Unsupported("item of the given mapping")

    def get(self, k, d=None):
        return self.sym_getitem(k)


class H5Obj(Model):
    def __init__(self, fm):
        self.fm = fm

    def sym_bool(self):
        return True


class Grp(H5Obj):
    def __init__(self, fm, name, file):
        super().__init__(fm)
        self.gname, self.file = name, file

    def sym_isinstance(self, cls):
        import h5py

        return issubclass(h5py.Group, cls)

    def sym_type(self):
        import h5py

        return h5py.Group


class Dset(H5Obj):
    def sym_isinstance(self, cls):
        import h5py

        return issubclass(h5py.Dataset, cls)

    def sym_type(self):
        import h5py

        return h5py.Dataset


class H5File(H5Obj):
    """An h5py.File."""

    def __init__(self, fm, filename, mode, kw):
        super().__init__(fm)
        self.filename, self.mode, self.kw, self.opened = filename, mode, kw, True
        self.ub = None

    def sym_isinstance(self, cls):
        import h5py

        return issubclass(h5py.File, cls)

    def access(self, kind, *args):
        self.fm.access(self, kind, *args)

    @property
    def userblock_size(self):
        if self.ub is None and self.mode in ("w", "x", "w-"):
            self.ub = self.kw.get("userblock_size", 0)
        if self.ub is None:
            self.ub = self.fm.ctx.int("userblock_size")
            self.fm.ctx.assume(self.ub.e >= 0)
        return self.ub

    def sym_getattr(self, n):
        if n in ("require_group", "get", "close", "flush", "userblock_size", "filename", "mode", "__contains__", "keys", "items",
                 "__enter__", "__exit__", "__delitem__", "__getitem__", "__len__"):
            return getattr(self, n)
        raise Unsupported(f"attribute {n} of an h5py.File")

    def require_group(self, name):
        self.access("require_group", name)
        self.fm.may_raise("require_group")
        return Grp(self.fm, name, self)

    def node(self, name):
        k = pstr(name).canon().key()
        if k not in self.fm.nodes:
            self.fm.nodes[k] = self.fm.ctx.pick(["group", "missing", "dataset"], f"node {len(self.fm.nodes)}")
        return self.fm.nodes[k]

    def get(self, name, default=None, getclass=False):
        self.access("lookup", name)
        if getclass:
            raise Unsupported("get with getclass")
        self.fm.may_raise("get")
        n = self.node(name)
        if n == "missing":
            return default
        return Grp(self.fm, name, self) if n == "group" else Dset(self.fm)

    def sym_getitem(self, name):
        r = self.get(name)
        if r is None:
            raise KeyError("Unable to open object")
        return r

    def sym_contains(self, name):
        self.access("member", name)
        self.fm.may_raise("in")
        return SBool(infile_e(pstr(name).canon()))

    __contains__ = sym_contains

    def sym_delitem(self, name):
        self.access("delete", name)
        self.fm.may_raise("del")

    __delitem__ = sym_delitem

    def sym_len(self):
        self.access("len")
        self.fm.may_raise("len")
        return self.fm.length()

    __len__ = sym_len

    def sym_list(self):
        self.access("iter")
        self.fm.may_raise("iter")
        return FocusSeq(self.fm.names())

    def sym_tuple(self):
        return FocusSeq(self.sym_list().elems, tuple)

    def sym_iter(self):
        return self.lazy()

    def keys(self):
        return self.lazy()

    def lazy(self):
        def take(seq):
            self.access("iter")
            return None

        return FocusSeq(self.fm.names(), on_take=take)

    def flush(self):
        self.access("flush")
        self.fm.may_raise("flush")

    def close(self):
        self.access("close")
        self.fm.may_raise("close")
        self.opened = False


class Wrapper(Model):
    """A LowLevelFile."""

    def __init__(self, fm, file, options):
        self.fm, self.file, self.options = fm, file, options

    def place(self, grp, name):
        if isinstance(grp, H5File):
            if grp is not self.file:
                raise Unsupported("data accessed through another file than the wrapper's")
            return pstr(name).canon()
        if not isinstance(grp, Grp):
            raise Unsupported("data accessed outside of a Group")
        return join2(pstr(grp.gname).canon(), name).canon()

    def write_data(self, grp, name, data, type_string=None):
        self.fm.access(self.file, "write", self.place(grp, name), data, type_string, self.options)
        self.fm.may_raise("write_data")

    def read_data(self, grp, name):
        loc = self.place(grp, name)
        self.fm.access(self.file, "read", loc, self.options)
        self.fm.may_raise("read_data", miss=True)
        return Value(loc)


class FileModel:
    def __init__(self, ctx, tag, where):
        self.ctx, self.it, self.tag, self.where = ctx, ctx.interp, tag, where
        self.trace, self.sections, self.locks, self.files = [], [], [], []
        self.nodes, self.injected, self.processed, self.missing = {}, None, [], False
        self.guard = None
        self.phase = "init"
        self._len = self._names = None
        self.errors = True
        self.install()

    # obligations of one property only
    def oblige(self, tag, what, cond, detail=""):
        tags = tag.split()
        if self.tag in tags:
            self.ctx.oblige(f"{self.where}:{what}", cond, detail)

    # -- environment ----------------------------------------------------
    def install(self):
        import copy
        import os
        import threading

        import h5py

        it = self.it
        m = it.models
        m[threading.Lock] = lambda: self.newlock(False)
        m[threading.RLock] = lambda: self.newlock(True)
        m[h5py.File] = self.open
        m[os.path.isfile] = lambda p: self.ctx.bool("file_exists")
        m[os.path.exists] = m[os.path.isfile]
        m[copy.copy] = self.copy
        m[itertools.filterfalse] = self.filterfalse
        m[posixpath.isabs] = lambda p: pstr(p).startswith("/")
        m[posixpath.join] = self.join
        m[posixpath.commonpath] = self.common
        m[posixpath.split] = self.split
        m[posixpath.dirname] = lambda p: self.split(p)[0]
        m[posixpath.basename] = lambda p: self.split(p)[1]
        it.by_name["process_path"] = self.process_path
        it.by_name["LowLevelFile"] = lambda f, o, *a, **k: Wrapper(self, f, o)
        it.hooks["yield"] = self.on_yield
        it.list_factory = lambda: FocusSeq([])

    def newlock(self, reentrant):
        lk = Lock(self, reentrant)
        self.locks.append(lk)
        return lk

    def open(self, filename, mode="r", **kw):
        if self.errors:
            self.may_raise("open")
        f = H5File(self, filename, mode, kw)
        self.files.append(f)
        self.trace.append((f, "open", (filename, mode), self.held()))
        return f

    def copy(self, o):
        import copy

        if isinstance(o, Model):
            raise Unsupported("copy of a model")
        return copy.copy(o)

    def filterfalse(self, f, seq):
        it = self.it

        def keep(x, out):
            if not it.truth(x if f is None else it.call(f, x)):
                out.append(x)

        if isinstance(seq, FocusSeq):
            return it.focus_map(seq, keep)
        return iter([x for x in it.iterate(seq) if not it.truth(it.call(f, x))])

    def join(self, a, *more):
        if all(isinstance(x, str) for x in (a,) + more):
            return posixpath.join(a, *more)
        r = a
        for x in more:
            r = join2(r, x)
        return r

    def common(self, seq):
        v = [pstr(x) for x in self.it.iterate(seq)]
        if len(v) != 2:
            raise Unsupported("commonpath of other than two paths")
        ab = [x.startswith("/") for x in v]
        if ab[0] != ab[1]:
            raise ValueError("Can't mix absolute and relative paths")
        if not ab[0]:
            raise Unsupported("commonpath of relative paths")
        return Common(self, *[x.canon() for x in v])

    def axioms(self, r, p):
        """Facts about two absolute paths, neither being the root."""
        c = self.ctx
        c.assume(z3.Implies(below_e(r, p), first_e(r, p)))
        c.assume(z3.Implies(eq_e(r, p), z3.Not(below_e(r, p, strict=True))))

    def split(self, p):
        p = pstr(p)
        if all(isinstance(x, str) for x in p.parts):
            return posixpath.split("".join(p.parts))
        if p.key() == self.refs.key():
            return (self.refs_dir, self.refs_base)
        if isinstance(p.parts[-1], Atom) and not p.parts[-1].multi:
            d = PStr(*p.parts[:-1])
            if d.endswith("/") and set("".join(x for x in d.parts if isinstance(x, str))) == {"/"} and len(d.parts) == 1:
                return ("/" if d.parts[0] == "/" else d.parts[0], PStr(p.parts[-1]))
            return (d.rstrip("/"), PStr(p.parts[-1]))
        raise Unsupported("posixpath.split")

    def on_yield(self):
        self.oblige("C20", "no lock held while a generator is suspended", not self.held())

    def foreign(self):
        """Code of the caller runs here (an iterable of theirs)."""
        bad = [x for x in self.locks if x.n and not x.reentrant]
        self.oblige("C20", "code of the caller runs without a lock it may need", not bad)

    def process_path(self, p):
        if not isinstance(p, PathObj):
            if isinstance(p, str) and p == "/":
                return ("/", ".")
            raise Unsupported(f"process_path of {p!r}")
        s = p.decide()
        self.processed.append(p)
        self.oblige("C23 C03", "paths are validated before the first change", not self.effects("require_group", "write", "delete"))
        if p.of is not None:
            self.processed[-1] = p.of
        if s == "TypeError":
            raise TypeError("invalid path")
        if s == "ValueError":
            raise ValueError("invalid path")
        return (p.g, p.t)

    # -- ghost state ----------------------------------------------------
    def held(self):
        return frozenset(i for i, x in enumerate(self.locks) if x.n)

    def access(self, f, kind, *args):
        h = self.held()
        self.trace.append((f, kind, args, h))
        if self.phase == "op":
            if self.guard:
                self.oblige("C20", "every access to the file is guarded by the lock close takes", bool(self.guard <= h), kind)
            if self.sections:
                self.sections[-1].append(kind)
            self.oblige("C06", "no access to a closed file", f.opened, kind)

    def may_raise(self, what, miss=False):
        if not self.errors:
            return
        exc = [None, H5Error] if self.ctx.in_generic or self.phase == "init" else [None, H5Error, KeyError, OSError, ValueError]
        e = self.ctx.pick(exc, f"{what} raises")
        if e is not None:
            self.injected = e(what)
            raise self.injected

    def length(self):
        if self._len is None:
            self._len = self.ctx.int("nroot")
            self.ctx.assume(self._len.e >= 0)
            if self.refs_root:
                self.ctx.assume(z3.Implies(infile_e(self.refs), self._len.e >= 1))
        return self._len

    def names(self):
        """The names in the root: all distinct, none holds a slash."""
        if self._names is None:
            c = self.ctx
            out = []
            for g, n in ((True, "before"), (False, "focus"), (True, "after")):
                out.append((g, PStr(Atom(f"name {n}", False))))
            self._names = out
        return list(self._names)

    # -- states ---------------------------------------------------------
    def options(self, root=None):
        import hdf5storage as h

        o, slot = c04.slots(self.ctx)
        real = h.Options()
        for n, f in slot.items():
            object.__setattr__(o, f, getattr(real, n) if n != "marshaller_collection" else None)
        object.__setattr__(o, slot["marshaller_collection"], Opaque("collection", (h.MarshallerCollection,), True))
        object.__setattr__(o, slot["matlab_compatible"], False)
        self.refs_root = self.ctx.choose(2, "references Group below the root") == 0 if root is None else root
        base = PStr(Atom("refs", False))
        if self.refs_root:
            self.refs_dir, self.refs_base, self.refs = "/", base, PStr("/", base)
        else:
            d = PStr("/", Atom("refs dir", True))
            self.refs_dir, self.refs_base, self.refs = d, base, PStr(d, "/", base)
        object.__setattr__(o, slot["group_for_references"], self.refs)
        return o

    def build(self, writable=None):
        """A File as its constructor leaves it."""
        import hdf5storage as h

        self.errors = False
        self.writable = self.ctx.bool("writable") if writable is None else writable
        self.opts = self.options()
        f = self.it.instantiate(h.File, ["f.h5"], dict(writable=self.writable, options=self.opts))
        self.phase = "op0"
        g = self.it.instantiate(h.File, ["g.h5"], dict(writable=False, options=self.opts))
        n = len(self.trace)
        base = len(self.locks)
        per = base // 2
        self.it.call(self.it.getattr(g, "close"))
        closes = [t for t in self.trace[n:] if t[1] == "close"]
        held = closes[0][3] if closes else frozenset()
        # the lock with the same position in f
        self.guard = frozenset(i - per if i >= per else i for i in held)
        self.oblige("C20", "closing takes a lock", bool(self.guard))
        self.h5 = [x for x in self.files if x.filename == "f.h5" and x.opened]
        self.begin()
        return f

    def begin(self):
        self.phase = "op"
        self.trace, self.sections, self.injected, self.processed, self.missing = [], [], None, [], False
        self.errors = True

    def end(self):
        """Obligations at every exit of an operation."""
        self.phase = "end"
        self.oblige("C20", "no lock is held when the operation ends", not self.held())
        used = [s for s in self.sections if s]
        self.oblige("C20", "all accesses of an operation are in one critical section", len(used) <= 1)
        self.oblige("C06 C20", "the file is accessed through its own handle only", all(t[0] in self.h5 for t in self.trace))

    def below(self, p):
        self.axioms(self.refs, p.loc())
        return below_e(self.refs, p.loc())

    def may_refuse(self, p):
        self.axioms(self.refs, p.loc())
        return first_e(self.refs, p.loc())

    def effects(self, *kinds):
        return [t for t in self.trace if t[1] in kinds]


def run(fm, what):
    """Runs an operation; gives (result, exception)."""
    try:
        return what(), None
    except (Unsupported, PathEnd):
        raise
    except Exception as e:  # noqa: BLE001
        return None, e


def state(fm, f, st):
    """Brings the File into the state 'open' or 'closed'."""
    if st == "closed":
        fm.errors = False
        fm.it.call(fm.it.getattr(f, "close"))
        fm.begin()
    return f


def elems(fm, with_value=True):
    out = []
    for g, n in ((True, "before"), (False, "focus"), (True, "after")):
        p = PathObj(fm, n)
        out.append((g, (p, Opaque(f"data {n}", (), True)) if with_value else p))
    return out


# -- operations --------------------------------------------------------------


def proc_writes(tag, st, kind, single=None):
    def proc(ctx):
        fm = FileModel(ctx, tag, "File.writes" if not single else f"File.{single}")
        f = state(fm, fm.build(), st)
        it = ctx.interp
        if single:
            focus = PathObj(fm, "focus")
            v = Opaque("data focus", (), True)
            seq = [(False, (focus, v))]
            if single == "write":
                r, e = run(fm, lambda: it.call(it.getattr(f, "write"), v, focus))
            else:
                r, e = run(fm, lambda: it.call(it.getattr(f, "__setitem__"), focus, v))
        else:
            seq = elems(fm)
            focus, v = seq[1][1]
            md = MDict(fm, kind, FocusSeq(seq, on_take=lambda s: fm.foreign()), None)
            r, e = run(fm, lambda: it.call(it.getattr(f, "writes"), md))
        fm.end()
        changes = fm.effects("require_group", "write", "delete")
        writable = zb(fm.writable)
        procd = [p for p in fm.processed]
        invalid = [p for p in procd if p.status != "ok"]
        okp = [p for p in procd if p.status == "ok"]
        if e is None:
            ctx.cover("ok")
            fm.oblige("C06", "not on a closed file", st != "closed")
            fm.oblige("C06", "not on a read-only file", writable)
            fm.oblige("C23", "only a Mapping", kind != "other")
            fm.oblige("C23", "every path was validated", focus.status == "ok")
            fm.oblige("C03", "no path inside of the references Group", z3.Not(fm.below(focus)) if focus.status == "ok" else False)
            w = [i for i, t in enumerate(fm.trace) if t[1] == "write" and t[2][1] is v]
            fm.oblige("C23 C21", "the data is written exactly once", len(w) == 1)
            if len(w) == 1:
                _, _, (loc, _, ts, o), _ = fm.trace[w[0]]
                fm.oblige("C23 C21", "to the location its path denotes", loc.key() == focus.loc().key())
                fm.oblige("C23", "with the options of the file", ts is None and it.getattr(o, "group_for_references") is fm.refs)
                other = [i for i, t in enumerate(fm.trace) if t[1] == "write" and t[2][1] is not v]
                label = [(i, fm.trace[i][2][1].label) for i in other]
                fm.oblige("C23", "in the order of the items", all((i < w[0]) == (n == "data before") for i, n in label))
                fm.oblige("C23", "nothing else is changed", not fm.effects("delete", "close"))
        else:
            ctx.cover("raised")
            if fm.injected is not None and e is fm.injected:
                ctx.cover("h5 error")
                fm.oblige("C06", "not on a closed file", st != "closed")
                fm.oblige("C06", "not on a read-only file", z3.Or(writable, z3.BoolVal(not changes)))
                fm.oblige("C23", "the batch was valid as a whole", focus.status == "ok")
                fm.oblige("C03", "the batch was valid as a whole", z3.Not(fm.below(focus)) if focus.status == "ok" else focus.status is not None)
                return
            fm.oblige("C23 C03 C06", "a refused request changes nothing", not changes)
            cause_type = kind == "other" or any(p.status == "TypeError" for p in procd)
            cause_val = z3.Or(*[fm.may_refuse(p) for p in okp], z3.BoolVal(any(p.status == "ValueError" for p in procd)))
            cause_os = z3.Or(z3.BoolVal(st == "closed"), z3.Not(writable))
            if isinstance(e, TypeError):
                fm.oblige("C23 C21", "TypeError only for a bad request", cause_type)
            elif isinstance(e, ValueError):
                fm.oblige("C23 C03 C21", "ValueError only for a bad request", cause_val)
            elif isinstance(e, OSError):
                fm.oblige("C06 C23 C21", "OSError only if closed or read-only", cause_os)
            else:
                fm.oblige("C06 C23", "no other exception", False, repr(e))
            # a bad state is told apart from bad requests unless both apply
            good = z3.And(z3.BoolVal(kind != "other" and not invalid), *[z3.Not(fm.may_refuse(p)) for p in okp])
            fm.oblige("C06", "closed or read-only gives OSError", z3.Implies(z3.And(cause_os, good), z3.BoolVal(isinstance(e, OSError))))
            if okp and not invalid and kind != "other":
                res = z3.Or(*[fm.below(p) for p in okp])
                fm.oblige("C03", "the references Group is refused with ValueError",
                          z3.Implies(z3.And(res, z3.Not(cause_os)), z3.BoolVal(isinstance(e, ValueError))))

    return proc


def proc_reads(tag, st, kind, single=None):
    def proc(ctx):
        fm = FileModel(ctx, tag, "File.reads" if not single else f"File.{single}")
        f = state(fm, fm.build(), st)
        it = ctx.interp
        if single:
            focus = PathObj(fm, "focus")
            r, e = run(fm, lambda: it.call(it.getattr(f, single), focus))
        else:
            seq = elems(fm, False)
            focus = seq[1][1]
            used = []

            def take(s):
                fm.foreign()
                used.append(1)
                return [] if kind == "once" and len(used) > 1 else None

            arg = Opaque("not iterable", (), True) if kind == "other" else FocusSeq(seq, on_take=take)
            r, e = run(fm, lambda: it.call(it.getattr(f, "reads"), arg))
        fm.end()
        fm.oblige("C06 C23", "reading changes nothing", not fm.effects("require_group", "write", "delete", "close"))
        procd = list(fm.processed)
        invalid = [p for p in procd if p.status != "ok"]
        okp = [p for p in procd if p.status == "ok"]
        if e is None:
            ctx.cover("ok")
            fm.oblige("C06", "not on a closed file", st != "closed")
            fm.oblige("C23", "only an Iterable", kind != "other")
            fm.oblige("C23", "every path was validated", focus.status == "ok")
            fm.oblige("C03", "no path inside of the references Group", z3.Not(fm.below(focus)) if focus.status == "ok" else False)
            if focus.status != "ok":
                return
            if single:
                fm.oblige("C23 C21", "gives what is at the path", isinstance(r, Value) and ctx.must(r.loc.key() == focus.loc().key()))
                return
            if not isinstance(r, FocusSeq) or r.pytype is not list:
                fm.oblige("C23", "gives a list", isinstance(r, list) and kind == "other")
                return
            vals = [v for g, v in r.elems if not g]
            fm.oblige("C23", "one item for the path", len(vals) == 1 and isinstance(vals[0], Value))
            if len(vals) == 1 and isinstance(vals[0], Value):
                fm.oblige("C23", "holding what is at the path", vals[0].loc.key() == focus.loc().key())
                pos = [i for i, (g, _) in enumerate(r.elems) if not g][0]
                for i, (g, x) in enumerate(r.elems):
                    if g:
                        p = seq[0][1] if i < pos else seq[2][1]
                        fm.oblige("C23", "in the order of the paths", isinstance(x, Value) and p.status == "ok" and x.loc.key() == p.loc().key())
        else:
            ctx.cover("raised")
            if fm.injected is not None and e is fm.injected:
                fm.oblige("C06", "not on a closed file", st != "closed")
                fm.oblige("C03", "nothing is read of a reserved path", z3.Not(fm.below(focus)) if focus.status == "ok" else True)
                return
            cause_type = kind == "other" or any(p.status == "TypeError" for p in procd)
            cause_val = z3.Or(*[fm.may_refuse(p) for p in okp], z3.BoolVal(any(p.status == "ValueError" for p in procd)))
            missing = any(n != "group" for n in fm.nodes.values())
            if isinstance(e, TypeError):
                fm.oblige("C23 C21", "TypeError only for a bad request", cause_type)
            elif isinstance(e, ValueError):
                fm.oblige("C23 C03 C21", "ValueError only for a bad request", cause_val)
            elif isinstance(e, OSError):
                fm.oblige("C06 C23 C21", "OSError only if closed", st == "closed")
            elif isinstance(e, KeyError):
                fm.oblige("C21 C23", "KeyError only for a missing Group", missing)
            else:
                fm.oblige("C06 C23 C21", "no other exception", False, repr(e))
            good = z3.And(z3.BoolVal(kind != "other" and not invalid), *[z3.Not(fm.may_refuse(p)) for p in okp])
            fm.oblige("C06", "closed gives OSError", z3.Implies(z3.And(z3.BoolVal(st == "closed"), good), z3.BoolVal(isinstance(e, OSError))))
            fm.oblige("C21", "a missing Group gives KeyError", not (missing and st != "closed") or isinstance(e, KeyError))
            fm.oblige("C23 C03", "a refused request reads nothing", isinstance(e, KeyError) or not fm.effects("read", "lookup"))
            if okp and not invalid and kind != "other":
                res = z3.Or(*[fm.below(p) for p in okp])
                fm.oblige("C03", "the references Group is refused with ValueError",
                          z3.Implies(z3.And(res, z3.BoolVal(st != "closed")), z3.BoolVal(isinstance(e, ValueError))))

    return proc


def proc_delete(tag, st):
    def proc(ctx):
        fm = FileModel(ctx, tag, "File.__delitem__")
        f = state(fm, fm.build(), st)
        it = ctx.interp
        p = PathObj(fm, "focus")
        r, e = run(fm, lambda: it.call(it.getattr(f, "__delitem__"), p))
        fm.end()
        writable = zb(fm.writable)
        changes = fm.effects("require_group", "write", "delete")
        if e is None or e is fm.injected:
            ctx.cover("ok")
            fm.oblige("C06", "not on a closed file", st != "closed")
            fm.oblige("C06", "not on a read-only file", z3.Or(writable, z3.BoolVal(e is not None and not changes)))
            fm.oblige("C21", "valid path", p.status == "ok")
            if e is None:
                d = fm.effects("delete")
                fm.oblige("C21", "exactly the path is deleted",
                          len(changes) == 1 and len(d) == 1 and pstr(d[0][2][0]).canon().key() == p.loc().key())
            return
        ctx.cover("raised")
        fm.oblige("C06 C21", "a refused deletion changes nothing", not changes)
        cause_os = z3.Or(z3.BoolVal(st == "closed"), z3.Not(writable))
        if isinstance(e, OSError):
            fm.oblige("C06 C21", "OSError only if closed or read-only", cause_os)
        else:
            fm.oblige("C06 C21", "TypeError/ValueError only for a bad path",
                      isinstance(e, (TypeError, ValueError)) and p.status not in (None, "ok") or (
                          isinstance(e, ValueError) and p.status == "ok" and ctx.must(fm.may_refuse(p))), repr(e))
            fm.oblige("C06", "closed or read-only gives OSError", z3.Implies(cause_os, z3.BoolVal(p.status != "ok")))

    return proc


def proc_contains(tag, st):
    def proc(ctx):
        fm = FileModel(ctx, tag, "File.__contains__")
        f = state(fm, fm.build(), st)
        it = ctx.interp
        p = PathObj(fm, "focus")
        r, e = run(fm, lambda: it.call(it.getattr(f, "__contains__"), p))
        fm.end()
        fm.oblige("C06 C21", "changes nothing", not fm.effects("require_group", "write", "delete", "close", "read"))
        if e is None:
            ctx.cover("ok")
            bad = p.status not in (None, "ok")
            fm.oblige("C06", "not on a closed file", st != "closed" or bad)
            if bad:
                fm.oblige("C21", "what is not a path is no member", r is False or isinstance(r, SBool) and ctx.must(z3.Not(r.e)))
            else:
                res = zb(r) if isinstance(r, (bool, SBool)) else None
                fm.oblige("C21", "gives a bool", res is not None)
                if res is not None:
                    fm.oblige("C21", "says whether the path is in the file",
                              z3.Or(res == infile_e(p.loc()), z3.And(z3.Not(res), fm.below(p))))
            return
        ctx.cover("raised")
        if e is fm.injected:
            return
        fm.oblige("C06 C21", "OSError only if closed", isinstance(e, OSError) and st == "closed", repr(e))

    return proc


def proc_len(tag, st):
    def proc(ctx):
        fm = FileModel(ctx, tag, "File.__len__")
        f = state(fm, fm.build(), st)
        it = ctx.interp
        r, e = run(fm, lambda: it.call(it.getattr(f, "__len__")))
        fm.end()
        fm.oblige("C06 C21 C03", "changes nothing", not fm.effects("require_group", "write", "delete", "close"))
        if e is None:
            ctx.cover("ok")
            fm.oblige("C06", "not on a closed file", st != "closed")
            n = fm.length().e
            fm.oblige("C03 C21", "counts the names in the root but not the references Group",
                      zi(r) == n - z3.If(z3.And(z3.BoolVal(fm.refs_root), infile_e(fm.refs)), 1, 0) if isinstance(r, (int, SInt)) else False)
            return
        ctx.cover("raised")
        if e is not fm.injected:
            fm.oblige("C06 C21", "OSError only if closed", isinstance(e, OSError) and st == "closed", repr(e))

    return proc


def zi(x):
    from pyvc.engine import zi as f

    return f(x)


def proc_iter(tag, st):
    def proc(ctx):
        fm = FileModel(ctx, tag, "File.__iter__")
        f = state(fm, fm.build(), st)
        it = ctx.interp
        r, e = run(fm, lambda: it.call(it.getattr(f, "__iter__")))
        taken = None
        if e is None:
            if isinstance(r, FocusSeq):
                fm.phase = "op"
                n = len(fm.trace)
                taken = r.take()
                fm.oblige("C20", "the names are listed while the lock is held", len(fm.trace) == n)
            elif not isinstance(r, Model):
                taken = [(False, x) for x in r]
        fm.end()
        fm.oblige("C06 C21 C03", "changes nothing", not fm.effects("require_group", "write", "delete", "close"))
        if e is None:
            ctx.cover("ok")
            fm.oblige("C06", "not on a closed file", st != "closed")
            if taken is None:
                raise Unsupported("what iteration gives")
            focus = fm.names()[1][1]
            got = [x for g, x in taken if not g]
            isrefs = zb(focus.sym_eq(fm.refs_base)) if fm.refs_root else z3.BoolVal(False)
            if not got:
                fm.oblige("C03 C21", "leaves out nothing but the references Group", isrefs)
            else:
                fm.oblige("C21", "gives each name once", len(got) == 1)
                fm.oblige("C21", "gives the names as they are", isinstance(got[0], PStr) and got[0].key() == focus.key())
                fm.oblige("C03", "does not give the references Group", z3.Not(isrefs))
            return
        ctx.cover("raised")
        if e is not fm.injected:
            fm.oblige("C06 C21", "OSError only if closed", isinstance(e, OSError) and st == "closed", repr(e))

    return proc


def proc_close(tag, st, how):
    def proc(ctx):
        fm = FileModel(ctx, tag, f"File.{how}")
        f = state(fm, fm.build(), st)
        it = ctx.interp
        if how == "close":
            r, e = run(fm, lambda: it.call(it.getattr(f, "close")))
        elif how == "__enter__":
            r, e = run(fm, lambda: it.call(it.getattr(f, "__enter__")))
        else:
            x = ctx.pick([None, H5Error("body"), OSError("body")], "exception in the body")
            r, e = run(fm, lambda: it.call(it.getattr(f, how), *([type(x) if x else None, x, None] if how == "__exit__" else [])))
        fm.end()
        closes = fm.effects("close")
        if how == "__enter__":
            if e is None:
                ctx.cover("ok")
                fm.oblige("C06 C23", "gives the file itself", r is f)
                fm.oblige("C06", "changes nothing", not fm.effects("require_group", "write", "delete", "close"))
            else:
                fm.oblige("C06", "OSError only if closed", isinstance(e, OSError) and st == "closed")
            return
        fm.oblige("C06", "closes, and only once", len(closes) == (0 if st == "closed" else 1))
        fm.oblige("C06", "changes nothing else", not fm.effects("require_group", "write", "delete"))
        if e is None:
            ctx.cover("ok")
            if fm.injected is None:
                fm.oblige("C06", "the file is closed", all(not x.opened for x in fm.h5))
                fm.oblige("C06", "the file says it is closed", it.truth(it.getattr(f, "closed")))
            fm.oblige("C06 C20", "an exception of the body passes", r is None or r is False)
        else:
            fm.oblige("C06", "no exception of its own", e is fm.injected, repr(e))

    return proc


def proc_flush(tag, st):
    def proc(ctx):
        fm = FileModel(ctx, tag, "File.flush")
        f = state(fm, fm.build(), st)
        it = ctx.interp
        r, e = run(fm, lambda: it.call(it.getattr(f, "flush")))
        fm.end()
        if e is None:
            ctx.cover("ok")
            fm.oblige("C06", "not on a closed file", st != "closed")
            fm.oblige("C06", "flushes what was written", z3.Or(z3.Not(zb(fm.writable)), z3.BoolVal(len(fm.effects("flush")) == 1)))
            fm.oblige("C06", "changes nothing else", not fm.effects("require_group", "write", "delete", "close"))
        elif e is not fm.injected:
            fm.oblige("C06", "OSError only if closed", isinstance(e, OSError) and st == "closed", repr(e))

    return proc


def proc_closed(tag, st):
    def proc(ctx):
        fm = FileModel(ctx, tag, "File.closed")
        f = state(fm, fm.build(), st)
        r = ctx.interp.getattr(f, "closed")
        fm.end()
        fm.oblige("C06", "tells whether the file is closed", z3.BoolVal(st == "closed") == zb(r))
        ctx.cover("ok")

    return proc


def proc_init(tag):
    """The constructor: which mode the file is opened with."""

    def proc(ctx):
        import hdf5storage as h

        fm = FileModel(ctx, tag, "File.__init__")
        fm.errors = False
        opts = fm.options()
        bad = ctx.pick([None, "filename", "writable", "truncate_existing", "truncate_invalid_matlab", "options"], "bad argument")
        kw = dict(filename="f.h5", writable=ctx.bool("writable"), truncate_existing=ctx.bool("truncate"),
                  truncate_invalid_matlab=ctx.bool("truncate_invalid"), options=opts)
        if bad:
            kw[bad] = Opaque("bad " + bad, (), True)
        f, e = run(fm, lambda: it_new(ctx, h.File, kw))
        opens = fm.effects("open")
        if bad:
            fm.oblige("C06", "bad arguments give TypeError and touch no file", isinstance(e, (TypeError, ValueError)) and not opens, repr(e))
            return
        fm.oblige("C06 C20", "no exception", e is None, repr(e))
        if e is not None:
            return
        ctx.cover("ok")
        fm.oblige("C20", "no lock is held when the operation ends", not fm.held())
        w, tr = zb(kw["writable"]), zb(kw["truncate_existing"])
        for o in opens:
            mode = o[2][1]
            fm.oblige("C06", "a file not opened for writing is opened with mode r", z3.Or(w, z3.BoolVal(mode == "r")), mode)
            fm.oblige("C06 C23", "only truncation or a missing file creates a file",
                      z3.Or(z3.BoolVal(mode in ("r", "a", "r+")), tr, z3.Not(z3.Bool("file_exists"))), mode)
        fm.oblige("C06", "the file is open", not ctx.interp.truth(ctx.interp.getattr(f, "closed")))
        fm.oblige("C06", "exactly one handle is left open", sum(x.opened for x in fm.files) == 1)

    return proc


class Text(Model):
    """Text whose pieces are known, or digits of which only the number is known."""

    def __init__(self, *parts, binary=False):
        self.parts, self.binary = [x for p in parts for x in (p.parts if isinstance(p, Text) else [p])], binary

    def __repr__(self):
        return "Text(" + "".join(p if isinstance(p, str) else "9" * p for p in self.parts) + ")"

    def sym_isinstance(self, cls):
        return issubclass(bytearray if self.binary else str, cls)

    def sym_type(self):
        return bytearray if self.binary else str

    def sym_len(self):
        return sum(len(p) if isinstance(p, str) else p for p in self.parts)

    def sym_bool(self):
        return self.sym_len() > 0

    @staticmethod
    def piece(o):
        if isinstance(o, Text):
            return o.parts
        if isinstance(o, str):
            return [o]
        if isinstance(o, (bytes, bytearray)):
            return [bytes(o).decode("latin-1")]
        raise Unsupported(f"text with {o!r}")

    def sym_binop(self, op, o, refl):
        if op != "Add":
            raise Unsupported(f"{op} of text")
        a, b = self.parts, self.piece(o)
        return Text(*(b + a if refl else a + b), binary=self.binary)

    def ljust(self, n, c=" "):
        c = c.decode() if isinstance(c, bytes) else c
        return Text(*self.parts, c * max(0, n - self.sym_len()), binary=self.binary)

    def encode(self, encoding="utf-8", errors="strict"):
        if not all(p.isascii() for p in self.parts if isinstance(p, str)):
            raise Unsupported("text that is not ASCII")
        return Text(*self.parts, binary=True)

    def extend(self, o):
        self.parts = self.parts + self.piece(o)

    def sym_str(self):
        return self


class Moment(Model):
    """Any point in time, given by what the header uses of it."""

    def __init__(self, ctx):
        self.ctx, self.mo, self.wd = ctx, None, None

    @property
    def month(self):
        self.mo = self.ctx.pick(list(range(1, 13)), "month") if self.mo is None else self.mo
        return self.mo

    def weekday(self):
        self.wd = self.ctx.pick(list(range(7)), "weekday") if self.wd is None else self.wd
        return self.wd

    def isoweekday(self):
        return self.weekday() + 1

    def strftime(self, spec):
        import re

        out = []
        for t in re.findall("%.|[^%]+", spec):
            if t in ("%d", "%H", "%M", "%S", "%m", "%y"):
                out.append(2)
            elif t == "%f":
                out.append(6)
            elif t == "%Y":
                out.append(self.ctx.pick([4, 3, 2, 1], "digits of the year"))
            elif t[0] == "%":
                raise Unsupported(f"strftime {t}")
            else:
                out.append(t)
        return Text(*out)


class Raw(Model):
    """The file opened as plain bytes."""

    def __init__(self, fm, filename, mode):
        self.fm, self.filename, self.mode, self.pos = fm, filename, mode, 0
        fm.trace.append((self, "raw", (filename, mode, [x for x in fm.files if x.opened]), fm.held()))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def seek(self, n, whence=0):
        if whence:
            raise Unsupported("seek relative to the end")
        self.pos = n

    def write(self, b):
        self.fm.trace.append((self, "bytes", (self.pos, b), self.fm.held()))
        n = b.sym_len() if isinstance(b, Text) else len(b)
        self.pos = self.pos + n
        return n


def proc_header(tag):
    """The constructor in MATLAB compatible mode: the header."""

    def proc(ctx):
        import datetime

        import hdf5storage as h

        fm = FileModel(ctx, tag, "File.__init__")
        fm.errors = False
        it, m = ctx.interp, ctx.interp.models
        now = Moment(ctx)
        m[datetime.datetime.utcnow] = lambda: now
        m[datetime.datetime.now] = lambda tz=None: now
        it.hooks["format"] = lambda x, spec: x.strftime(spec) if isinstance(x, Moment) else (x if isinstance(x, Text) and not spec else None)
        m[open] = lambda filename, mode="r", *a, **k: Raw(fm, filename, mode)
        m[bytearray] = lambda x=b"", encoding=None, errors="strict": Text(x, binary=True) if isinstance(x, Text) else Text((bytearray(x, encoding) if encoding else bytearray(x)).decode("latin-1"), binary=True)
        m[bytes] = lambda x=b"", encoding=None, errors="strict": Text(x, binary=True) if isinstance(x, Text) else (bytes(x, encoding) if encoding else bytes(x))
        opts = fm.options(True)
        _, slot = c04.slots(ctx)
        matlab = ctx.bool("matlab_compatible")
        object.__setattr__(opts, slot["matlab_compatible"], matlab)
        w, tr, ti = ctx.bool("writable"), ctx.bool("truncate"), ctx.bool("truncate_invalid")
        f, e = run(fm, lambda: it_new(ctx, h.File, dict(filename="f.h5", writable=w, truncate_existing=tr, truncate_invalid_matlab=ti, options=opts)))
        fm.oblige("C18 C06", "no exception", e is None, repr(e))
        if e is not None:
            return
        ctx.cover("ok")
        zw, zt, zi_, zm = zb(w), zb(tr), zb(ti), zb(matlab)
        opens = fm.effects("open")
        made = [o for o in opens if o[2][1] not in ("r", "r+", "a")]
        first = opens[0][0]
        small = first.userblock_size
        small = small < 128 if isinstance(small, int) else small.e < 128
        for o in made:
            fm.oblige("C18 C06", "only truncation, a missing file or a refused one creates a file",
                      z3.Or(zt, z3.Not(z3.Bool("file_exists")), z3.And(zm, zi_, small)), o[2][1])
            fm.oblige("C18", "a created file has a block of 512 bytes before it", o[0].kw.get("userblock_size") == 512)
        fm.oblige("C18 C06", "exactly one handle is left open", sum(x.opened for x in fm.files) == 1)
        fm.oblige("C18 C06", "the handle kept is the one left open", ctx.interp.getattr(f, "_file") in [x for x in fm.files if x.opened])
        raw, wrote = fm.effects("raw"), fm.effects("bytes")
        for r in raw:
            fm.oblige("C18 C06", "bytes are written only to a file opened for writing", zw)
            fm.oblige("C18 C06", "bytes are written only while no handle is open", not r[2][2])
            fm.oblige("C18", "the file is opened in place", r[2][1] in ("r+b", "rb+"))
            fm.oblige("C18", "the file is the one asked for", r[2][0] == "f.h5")
        ub = made[-1][0].userblock_size if made else first.userblock_size
        room = ub >= 128 if isinstance(ub, int) else ub.e >= 128
        if wrote:
            fm.oblige("C18 C06", "the header is only written where there is room for it", room)
            fm.oblige("C18", "the header is only written in MATLAB compatible mode", zm)
            fm.oblige("C18", "the header comes after the last creation",
                      not made or fm.trace.index(made[-1]) < fm.trace.index(wrote[0]))
            end = 0
            for t in wrote:
                fm.oblige("C18", "the header is written without gaps from the start", t[2][0] == end)
                end += t[2][1].sym_len() if isinstance(t[2][1], Text) else len(t[2][1])
            whole = Text(*[x for t in wrote for x in Text.piece(t[2][1])])
            text = "".join(p if isinstance(p, str) else "0" * p for p in whole.parts)
            fm.oblige("C18", "the header has 128 bytes", len(text) == 128, text)
            fm.oblige("C18", "the header starts with MATLAB 7.3 MAT-file", text.startswith("MATLAB 7.3 MAT-file"), text)
            fm.oblige("C18", "the text of the header is ASCII", all(32 <= ord(c) < 127 for c in text[:116]), text)
            fm.oblige("C18", "the header ends with no subsystem, version 2 and the order of bytes", text[116:] == "\0" * 8 + "\0\2IM", text)
            fm.oblige("C18", "the header names a day and a month",
                      (now.mo is None or MONTHS[now.mo - 1] in text) and (now.wd is None or DAYS[now.wd] in text), text)
        else:
            fm.oblige("C18", "a file made or opened for writing in MATLAB compatible mode gets the header", z3.Not(z3.And(zw, zm, room)))

    return proc


DAYS = ("Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun")
MONTHS = ("Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")


def it_new(ctx, cls, kw):
    return ctx.interp.instantiate(cls, [], kw)


class FileProxy(Model):
    """A File, by its contract."""

    def __init__(self, log, errors, args, kw):
        self.log, self.errors, self.open = log, errors, True
        log.append(("open", args, kw))

    def step(self, what, *args):
        self.log.append((what,) + args)
        if not self.open:
            raise OSError("File is closed.")
        e = self.errors(what)
        if e is not None:
            raise e
        r = Opaque(f"result of {what}", (), True)
        self.result = r
        return r

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.log.append(("close",))
        self.open = False

    def read(self, path="/"):
        return self.step("read", path)

    __getitem__ = sym_getitem = read

    def reads(self, paths):
        return self.step("reads", paths)

    def write(self, data, path="/"):
        self.step("write", data, path)

    def __setitem__(self, path, data):
        self.step("write", data, path)

    sym_setitem = __setitem__

    def writes(self, mdict):
        self.step("writes", mdict)


def proc_module(fn, form):
    """The module level functions: the operation on an opened, then closed file."""

    def proc(ctx):
        import hdf5storage as h

        it = ctx.interp
        log, files, raised = [], [], []

        def errors(what):
            e = ctx.pick([None, H5Error, KeyError, OSError], f"{what} raises")
            if e is not None:
                raised.append(e(what))
                return raised[-1]

        def File(*a, **k):
            if ctx.choose(2, "opening fails"):
                raised.append(H5Error("open"))
                raise raised[-1]
            files.append(FileProxy(log, errors, a, k))
            return files[-1]

        it.by_name["File"] = File
        data, path, opt = Opaque("data", (), True), Opaque("path", (), True), Opaque("options", (h.Options,), True)
        kw = {"plain": {}, "filename": {"filename": "x.h5"}, "options": {"options": opt}, "none": {"options": None, "filename": "x.h5"},
              "matlab": {"matlab_compatible": ctx.bool("mc"), "oned_as": "row"}}[form]
        args = {"writes": [data], "write": [data, path], "reads": [data], "read": [path]}[fn]
        r = e = None
        try:
            r = it.call(getattr(h, fn), *args, **dict(kw))
        except (Unsupported, PathEnd):
            raise
        except Exception as x:  # noqa: BLE001
            e = x
        where = f"hdf5storage.{fn}"
        ctx.oblige(f"{where}:only the errors of the operation", (e is None) == (not raised) and (e is None or e is raised[-1]), repr(e))
        if not files:
            ctx.oblige(f"{where}:opens the file", e is not None)
            return
        ctx.cover("ok")
        ctx.oblige(f"{where}:the file is closed", len(files) == 1 and not files[0].open)
        ops = [x for x in log if x[0] not in ("open", "close")]
        want = {"writes": ("writes", data), "write": ("write", data, path), "reads": ("reads", data), "read": ("read", path)}[fn]
        same = len(ops) == 1 and len(ops[0]) == len(want) and all(x is y or x == y for x, y in zip(ops[0], want))
        if not same and ops and {fn, ops[0][0]} <= {"read", "reads", "write", "writes"}:
            raise Unsupported("another operation of the contract")
        ctx.oblige(f"{where}:is that operation of File, once", same, str(ops))
        a, k = [x for x in log if x[0] == "open"][0][1:]
        ctx.oblige(f"{where}:opened for it", k.get("writable", a[1] if len(a) > 1 else False) is (fn in ("write", "writes")))
        for n, v in kw.items():
            ctx.oblige(f"{where}:opened with the given {n}", n in k and k[n] is v)
        extra = set(k) - set(kw) - {"writable"}
        ctx.oblige(f"{where}:opened with nothing else", extra <= ({"matlab_compatible"} if fn in ("read", "reads") else set()), str(extra))
        if fn in ("read", "reads") and e is None:
            ctx.oblige(f"{where}:gives the result", r is files[0].result)

    return proc


NAMES = {
    "C18": ("header",),
    "C03": ("writes", "reads", "write", "read", "__setitem__", "__getitem__", "len", "iter"),
    "C21": ("writes", "reads", "write", "read", "__setitem__", "__getitem__", "len", "iter", "contains", "delitem"),
    "C23": ("writes", "reads", "write", "read", "__setitem__", "__getitem__", "enter", "init"),
}


def procs(tag):
    out = []

    names = NAMES.get(tag)

    def add(n, p, cover=("ok",)):
        if names is None or any(n.startswith(x) for x in names):
            out.append((f"{n}", p, dict(must_cover=set(cover))))

    for st in ("open", "closed"):
        c = ("ok",) if st == "open" else ()
        for k in ("dict", "mapping", "other"):
            add(f"writes {k} {st}", proc_writes(tag, st, k), c if k != "other" else ())
        for k in ("list", "once", "other"):
            add(f"reads {k} {st}", proc_reads(tag, st, k), c if k != "other" else ())
        for s in ("write", "__setitem__"):
            add(f"{s} {st}", proc_writes(tag, st, "dict", s), c)
        for s in ("read", "__getitem__"):
            add(f"{s} {st}", proc_reads(tag, st, "list", s), c)
        add(f"delitem {st}", proc_delete(tag, st), c)
        add(f"contains {st}", proc_contains(tag, st), c)
        add(f"len {st}", proc_len(tag, st), c)
        add(f"iter {st}", proc_iter(tag, st), c)
        add(f"flush {st}", proc_flush(tag, st), c)
        add(f"closed {st}", proc_closed(tag, st))
        add(f"close {st}", proc_close(tag, st, "close"))
        add(f"exit {st}", proc_close(tag, st, "__exit__"))
        add(f"enter {st}", proc_close(tag, st, "__enter__"), c)
    add("init", proc_init(tag))
    if tag in ("C06", "C18"):
        add("header", proc_header(tag))
    if tag == "C23":
        for fn in ("writes", "write", "reads", "read"):
            for form in ("plain", "filename", "options", "none", "matlab"):
                out.append((f"module {fn} {form}", proc_module(fn, form), dict(must_cover={"ok"})))
    return out
