"""C16: contracts of next_unused_ref_group_name and write_object_array.

Ghost state: top, such that every name in the Group for references that is a
plain hexadecimal number (other than 'a', the canonical empty) is below it.
Invariant of a handle that made the Group: its counter is at least top.  It is
arbitrary in everything else (the counter is any attribute that counts).  A
write uses up names (top and the counter move arbitrarily, keeping the
invariant, since writing nests), writes something or nothing, or raises.
"""
import random

import h5py
import numpy as np
import z3

from pyvc.engine import FocusSeq, Idx, Invariant, Model, Opaque, PathEnd, SInt, Unsupported, current

TRUSTED = [
    "h5py: the references of different objects differ and lead to their object whatever else is created; membership in a Group",
    "write_data: writes under the name given, and otherwise changes the Group for references only through write_object_array and "
    "next_unused_ref_group_name (induction over the nesting); options do not change while writing; no one else writes to the Group (C03)",
    "fewer than 2**60 elements are written through one handle (the counter never reaches 16 digits)",
    "numpy.full, reshape(-1) and flat address the elements in the same (C) order",
]


class W:
    """The world: the Group for references, the ghost state and the handle."""

    def __init__(self, ctx):
        self.ctx, self.version = ctx, 0
        self.top = z3.IntVal(11)
        self.ll, self.counters, self.grp, self.made = None, [], None, False
        self.written = []

    # loop_state
    def allows(self, o, n):
        return o is self.ll and n in self.counters

    def enter(self):
        if self.made:
            self.end("before the first element")

    def begin(self):
        """Any number of names used up since."""
        t = self.ctx.int("top")
        self.ctx.assume(t.e >= self.top)
        self.top, self.version = t.e, self.version + 1
        for n in self.counters:
            c = self.ctx.int("counter")
            self.ctx.assume(c.e >= self.top)
            object.__setattr__(self.ll, n, c)

    def end(self, when="after an element"):
        for n in self.counters:
            v = self.ll.__dict__[n]
            self.ctx.oblige(f"counter:no name in use is ahead of it ({when})", zint(v) >= self.top)


def zint(v):
    return v.e if isinstance(v, SInt) else z3.IntVal(v)


class Hex(Model):
    """The plain hexadecimal form of a number."""

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"<hex of {self.e}>"

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_binop(self, op, o, refl):
        if op == "Add" and o == "":
            return self
        return NotImplemented


class Rand(Model):
    """A random name; absent in a version of the Group."""

    def __init__(self, w):
        self.w, self.absent = w, None

    def __repr__(self):
        return f"<random name, seen to be unused in {self.absent} of {self.w.version}>"

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_binop(self, op, o, refl):
        if op == "Add" and o == "":
            return self
        return NotImplemented


class RandInt(Model):
    """64 random bits."""

    def __init__(self, w):
        self.w = w

    def sym_binop(self, op, o, refl):
        if op == "Mod" and refl and o == "%016x":
            return Rand(self.w)
        return NotImplemented


class Ref(Model):
    def __init__(self, node):
        self.node = node

    def __repr__(self):
        return f"<reference to {self.node}>"


class Attr(Model):
    def __init__(self, node):
        self.node = node

    def get(self, k, d=None):
        if k == "H5PATH" and not self.node.old:
            self.decide()
        if k in self.node.attrs:
            return self.node.attrs[k]
        if self.node.old:
            if k == "MATLAB_class":
                return np.bytes_("canonical empty") if self.node.fact("class") else current().pick([None, np.bytes_("double")], "class")
            if k == "MATLAB_empty":
                return np.uint8(1) if self.node.fact("empty") else current().pick([None, np.uint8(0)], "empty")
        return d

    def decide(self):
        """What was written may have an H5PATH."""
        if not getattr(self.node, "decided", False):
            self.node.decided = True
            if "H5PATH" not in self.node.attrs and current().choose(2, "H5PATH"):
                self.node.attrs["H5PATH"] = Opaque("H5PATH")

    def sym_contains(self, k):
        return self.get(k) is not None

    def sym_getitem(self, k):
        v = self.get(k)
        if v is None:
            raise KeyError(k)
        return v

    def modify(self, k, v):
        if k == "H5PATH":
            self.node.decided = True
        self.node.attrs[k] = v

    create = modify
    sym_setitem = modify

    def sym_delitem(self, k):
        if k == "H5PATH":
            self.decide()
            if k not in self.node.attrs:
                raise KeyError(k)
            del self.node.attrs[k]
            return
        raise Unsupported("deleting an attribute")

    def pop(self, k, *d):
        try:
            self.sym_delitem(k)
        except KeyError:
            if not d:
                raise
            return d[0]


class Diff(Model):
    def __init__(self, node):
        self.node = node

    def any(self):
        return not self.node.fact("zeros")


class Content(Model):
    def __init__(self, node):
        self.node = node

    def sym_eq(self, o):
        raise Unsupported("comparison of contents")

    def sym_ne(self, o):
        if isinstance(o, np.ndarray) and o.shape == (2,) and not o.any():
            return Diff(self.node)
        raise Unsupported("comparison of contents")

    def any(self):
        return not self.node.fact("zeros")


class DtName(Model):
    def __init__(self, node):
        self.node = node

    def startswith(self, p):
        if p == "uint":
            return self.node.fact("uint")
        raise Unsupported("name of a dtype")


class DtOf(Model):
    def __init__(self, node):
        self.node = node

    def sym_getattr(self, n):
        if n == "name":
            return DtName(self.node)
        if n == "kind":
            return "u" if self.node.fact("uint") else current().pick(["i", "f", "V"], "kind")
        raise Unsupported(f"{n} of a dtype")


class Node(Model):
    """An entry of the Group for references."""

    def __init__(self, w, label, old=False, data=None):
        self.w, self.label, self.old, self.data, self.attrs_, self.facts = w, label, old, data, {}, {}
        self._ref = Ref(self)

    def __repr__(self):
        return self.label

    def fact(self, n):
        """Whether an existing entry is what the canonical empty has to be in this respect."""
        if n not in self.facts:
            self.facts[n] = self.w.ctx.choose(2, f"the entry 'a' is right in: {n}") == 0
        return self.facts[n]

    def sym_isinstance(self, cls):
        if not self.old:
            return cls is h5py.Dataset or cls is object
        if cls is h5py.Dataset:
            return self.fact("dataset")
        if cls is h5py.Group:
            return not self.fact("dataset")
        raise Unsupported("kind of an entry")

    @property
    def attrs(self):
        return self.attrs_

    def sym_getattr(self, n):
        if n == "ref":
            return self._ref
        if n == "attrs":
            return Attr(self)
        if n == "name":
            return Opaque("name of an entry", (str,), True)
        if n in ("shape", "dtype", "size", "ndim") and self.old:
            if not self.fact("dataset"):
                raise AttributeError(n)
            if n == "shape":
                return (2,) if self.fact("shape") else current().pick([(), (3,), (2, 1)], "shape")
            if n == "dtype":
                return DtOf(self)
        raise Unsupported(f"{n} of an entry")

    def sym_getitem(self, i):
        if i is Ellipsis or i == ():
            return Content(self)
        raise Unsupported("part of an entry")

    def canonical(self):
        if self.old:
            return all([self.fact(n) for n in ("dataset", "shape", "uint", "zeros", "class", "empty")])
        d = self.data
        return bool(isinstance(d, np.ndarray) and d.shape == (2,) and d.dtype.kind == "u" and not d.any()
                and self.attrs.get("MATLAB_class") == b"canonical empty" and self.attrs.get("MATLAB_empty") == 1)


class RefGroup(Model):
    def __init__(self, w, a, old):
        self.w, self.a, self.old = w, a, old

    def sym_isinstance(self, cls):
        return cls in (h5py.Group, object)

    def sym_bool(self):
        return True

    def sym_getattr(self, n):
        if n == "name":
            return "/" + GROUP.lstrip("/")
        if n in ("get", "create_dataset", "pop"):
            return Fn(getattr(self, n + "_"))
        raise Unsupported(f"{n} of the Group for references")

    def get_(self, k, default=None):
        if k != "a":
            raise Unsupported("reading another entry")
        return default if self.a is None else self.a

    def sym_contains(self, k):
        if k == "a":
            return self.a is not None
        if isinstance(k, Rand):
            if self.w.ctx.choose(2, "name is used") == 1:
                return True
            k.absent = self.w.version
            return False
        if isinstance(k, Hex):
            if self.w.ctx.choose(2, "name is used") == 1:
                return True
            self.w.ctx.assume(k.e >= self.w.top)
            return False
        raise Unsupported("membership in the Group for references")

    def sym_getitem(self, k):
        if k == "a":
            if self.a is None:
                raise KeyError(k)
            return self.a
        raise Unsupported("reading another entry")

    def sym_delitem(self, k):
        w = self.w
        w.ctx.oblige("kept:nothing but something that only looks like the canonical empty is deleted", k == "a" and (self.a is None or not self.a.canonical()))
        if k == "a":
            if self.a is None:
                raise KeyError(k)
            self.a = None

    def create_dataset_(self, name, shape=None, dtype=None, data=None):
        if name != "a" or shape is not None or dtype is not None:
            raise Unsupported("creating another entry")
        if self.a is not None:
            raise ValueError("Unable to create dataset (name already exists)")
        self.a = Node(self.w, "new canonical empty", data=data)
        return self.a


GROUP = "/#refs#"


class Fn(Model):
    def __init__(self, f):
        self.sym_call = f


class H5File(Model):
    def __init__(self, w, at):
        self.w, self.at = w, at

    def sym_isinstance(self, cls):
        return cls in (h5py.File, h5py.Group, object)

    def path(self, k):
        if k != GROUP:
            raise Unsupported("another path")

    def get(self, k, default=None):
        self.path(k)
        return default if self.at is None else self.at

    def sym_contains(self, k):
        self.path(k)
        return self.at is not None

    def sym_getitem(self, k):
        self.path(k)
        if self.at is None:
            raise KeyError(k)
        return self.at

    def sym_delitem(self, k):
        self.path(k)
        self.w.ctx.oblige("kept:the Group for references is not deleted", not isinstance(self.at, RefGroup))
        if self.at is None:
            raise KeyError(k)
        self.at = None

    def create_group(self, k):
        self.path(k)
        if self.at is not None:
            raise ValueError("Unable to create group (name already exists)")
        self.at = self.w.grp = RefGroup(self.w, None, False)
        self.w.made = True
        return self.at

    def require_group(self, k):
        self.path(k)
        if self.at is None:
            return self.create_group(k)
        if not isinstance(self.at, RefGroup):
            raise TypeError("Incompatible object already exists")
        return self.at


class Opts(Model):
    def __init__(self, ctx):
        self.ctx, self.mc = ctx, None

    def sym_type(self):
        import hdf5storage as h

        return h.Options

    def sym_getattr(self, n):
        if n == "group_for_references":
            return GROUP
        if n == "matlab_compatible":
            if self.mc is None:
                self.mc = self.ctx.choose(2, "matlab_compatible") == 1
            return self.mc
        raise Unsupported(f"option {n}")


class ObjArr(Model):
    """The array of objects to write."""

    def __init__(self, elems):
        self.elems = elems
        self.shape = Opaque("shape", (tuple,), True)

    def sym_isinstance(self, cls):
        return cls in (np.ndarray, object)

    def sym_getattr(self, n):
        if n == "shape":
            return self.shape
        if n == "flat":
            return FocusSeq(self.elems)
        if n in ("ravel", "flatten", "reshape"):
            return Fn(lambda *a: self.flat_(n, *a))
        if n == "size":
            return current().int("size")
        raise Unsupported(f"{n} of the data")

    def flat_(self, n, *a):
        if a and a != ("C",) and a != (-1,):
            raise Unsupported("order of the data")
        return FocusSeq(self.elems)


class Refs(Model):
    """An array of references; flat."""

    def __init__(self, shape, fill, dtype):
        self.shape, self.fill, self.dtype, self.m = shape, fill, dtype, {}

    def sym_isinstance(self, cls):
        return cls in (np.ndarray, object)

    def sym_getattr(self, n):
        if n == "shape":
            return self.shape
        if n == "dtype":
            return self.dtype
        if n == "reshape":
            return Fn(self.reshape_)
        if n in ("ravel", "view"):
            return Fn(self.reshape_)
        if n == "flat":
            return FlatRefs(self)
        raise Unsupported(f"{n} of the references")

    def reshape_(self, *a, **k):
        if a in ((-1,), ()) and not k:
            return FlatRefs(self)
        raise Unsupported("reshape of the references")


class FlatRefs(Model):
    def __init__(self, of):
        self.of = of

    def sym_setitem(self, i, v):
        if not isinstance(i, Idx):
            raise Unsupported("index of a reference")
        self.of.m[id(i.elem)] = v

    def sym_getitem(self, i):
        if not isinstance(i, Idx):
            raise Unsupported("index of a reference")
        return self.of.m.get(id(i.elem), self.of.fill)


class Names(Invariant):
    """while name in use: another one  (no invariant is needed: it ends only if the name is unused)."""

    def check(self, fr, when):
        pass

    def havoc(self, fr):
        for n, v in self.before.items():
            fr.locals[n] = Rand(v.w) if isinstance(v, Rand) else v

    def __init__(self, fr):
        self.before = {n: v for n, v in fr.locals.items() if isinstance(v, Rand)}


GROUPS = ["none", "other", "a right", "a wrong", "empty"]


def world(ctx, group):
    from hdf5storage import utilities as u

    it, w = ctx.interp, W(ctx)
    it.hooks["format"] = lambda x, spec: Hex(x.e) if isinstance(x, SInt) and spec == "x" else Rand(w) if isinstance(x, RandInt) and spec == "016x" else None
    it.hooks["mod"] = lambda a, b: Hex(b.e) if isinstance(b, SInt) and a == "%x" else None
    it.models[random.getrandbits] = lambda n: RandInt(w) if n == 64 else ctx.int("bits")
    it.models[h5py.special_dtype] = h5py.special_dtype
    it.models[np.array] = lambda *a, **k: np.array(*a, **k)
    it.models[np.zeros] = lambda *a, **k: np.zeros(*a, **k)
    it.models[np.any] = lambda x: x.any()
    it.models[np.full] = lambda shape, fill, dtype=None: Refs(shape, fill, dtype)
    it.models[np.empty] = lambda shape, dtype=None: Refs(shape, None, dtype)
    it.hooks["while"] = lambda itp, s, fr: Names(fr)
    at = None
    if group == "other":
        at = Node(w, "something else at the path", old=True)
        at.facts["dataset"] = True
    elif group != "none":
        a = None if group == "empty" else Node(w, "old canonical empty", old=True)
        if group == "a right":
            a.facts = {n: True for n in ("dataset", "shape", "uint", "zeros", "class", "empty")}
        at = w.grp = RefGroup(w, a, True)
    w.file, w.opts = H5File(w, at), Opts(ctx)
    w.ll = it.instantiate(u.LowLevelFile, [w.file, w.opts], {})
    return w


def use(w, name, what="the name"):
    """An entry is made under a name."""
    if isinstance(name, str) and name and name == name.lower().lstrip("0") and all(c in "0123456789abcdef" for c in name):
        name = Hex(z3.IntVal(int(name, 16)))
    if isinstance(name, Hex):
        if w.made:
            w.ctx.oblige(f"fresh:{what} is in use by nobody", name.e >= w.top, repr(name))
        else:
            w.ctx.oblige(f"fresh:{what} is in use by nobody", False, "a counted name in a Group made by others")
        w.top = z3.simplify(name.e + 1)
    elif isinstance(name, Rand):
        w.ctx.oblige(f"fresh:{what} is in use by nobody", name.absent == w.version, repr(name))
    else:
        raise Unsupported("name of another kind")


def settle(w):
    """An arbitrary later state of the handle: counters are what counts."""
    before = dict(w.ll.__dict__)
    nm = w.ctx.interp.run_function(type(w.ll).next_unused_ref_group_name, [w.ll], {})
    w.counters = [n for n, v in w.ll.__dict__.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool) and v is not before.get(n) and v != before.get(n)]
    other = [n for n, v in w.ll.__dict__.items() if n not in w.counters and v is not before.get(n) and isinstance(v, (int, str, list, set, dict))]
    if other and not all(isinstance(before.get(n), type(None)) for n in other):
        raise Unsupported("state of the handle of another kind")
    return nm


def run(w, fn, args):
    e, r = None, None
    try:
        r = w.ctx.interp.run_function(fn, args, {})
    except (Unsupported, PathEnd):
        raise
    except Exception as x:  # noqa: BLE001
        e = x
    return r, e


def proc_name(first, group):
    def go(ctx):
        w = world(ctx, group)
        cls = type(w.ll)
        if not first:
            # whatever has been written before
            use(w, settle(w), "the first name")
            use(w, settle(w), "the second name")
            if w.made:
                c = [zint(w.ll.__dict__[n]) for n in w.counters]
                for x in c:
                    ctx.oblige("counter:it starts ahead of all names", x >= w.top)
            w.begin()
        c0 = {n: zint(w.ll.__dict__[n]) for n in w.counters}
        nm, e = run(w, cls.next_unused_ref_group_name, [w.ll])
        ctx.oblige("outcome:no error", e is None, repr(e))
        if e is not None:
            return
        use(w, nm)
        ctx.cover("named")
        w.end("after handing out")
        for n, c in c0.items():
            ctx.oblige("counter:only counts up", zint(w.ll.__dict__[n]) >= c)

    return go


class Failed(Exception):
    pass


def proc_write(first, group):
    def go(ctx):
        w = world(ctx, group)
        it, cls = ctx.interp, type(w.ll)
        if not first:
            settle(w)
            settle(w)
            w.begin()
        else:
            # which attributes count is seen on another handle of the same file
            other, keep = world_like(ctx, w), w.ll
            w.counters = other
            w.ll = keep

        def write_data(self, grp, name, data, type_string=None, *a):
            if self is not w.ll or a:
                raise Unsupported("write_data of another handle")
            ctx.oblige("target:elements are written to the Group for references", grp is w.file.at and isinstance(grp, RefGroup))
            use(w, name, "the name of an element")
            w.written.append(data)
            if w.made:
                w.end("before writing an element")
            w.begin()
            k = ctx.choose(3, "written, nothing written, error")
            if k == 2:
                raise Failed("cannot be written")
            if k == 1:
                return None
            node = Node(w, f"entry of {data.label}")
            node.of = data
            return node

        it.by_name["LowLevelFile.write_data"] = write_data
        it.hooks["loop_state"] = w
        data = ObjArr([(True, Opaque("earlier element")), (False, Opaque("the element")), *([(True, Opaque("later element"))] if group != "a wrong" else [])])
        r, e = run(w, cls.write_object_array, [w.ll, data])
        if w.made:
            w.end("at the end")
        if isinstance(e, Failed):
            return
        ctx.oblige("outcome:no error of its own", e is None, repr(e))
        if e is not None:
            return
        if not isinstance(r, Refs):
            raise Unsupported("result of another kind")
        ctx.oblige("result:one reference for each element", r.shape is data.shape and h5py.check_ref_dtype(r.dtype) is h5py.Reference, repr(r.dtype))
        a = w.file.at.a if isinstance(w.file.at, RefGroup) else None
        ctx.oblige("canonical empty:it is there", a is not None and a.canonical(), repr(a))
        for g, x in data.elems:
            v = r.m.get(id(x), r.fill)
            if g and not any(y is x for y in w.written):
                continue  # taken to be no elements
            told = f"{x!r}: {v!r}"
            node = v.node if isinstance(v, Ref) else None
            ctx.oblige("result:each element has an entry of its own or is the canonical empty", node is not None and (node is a or getattr(node, "of", None) is x), told)
            ctx.oblige("result:each element is written once", sum(1 for y in w.written if y is x) == 1, told)
            if not g and node is a and a is not None:
                ctx.cover("not written")
            elif not g:
                ctx.cover("written")

    return go


def world_like(ctx, w):
    """The names of the attributes that count, on a handle of its own."""
    from hdf5storage import utilities as u

    w2 = W(ctx)
    w2.file, w2.opts = H5File(w2, None), w.opts
    w2.ll = ctx.interp.instantiate(u.LowLevelFile, [w2.file, w2.opts], {})
    settle(w2)
    settle(w2)
    return w2.counters


def procedures(tier):
    out = []
    for g in GROUPS:
        for first, w in ((True, "new handle"), (False, "later")):
            out.append((f"next_unused_ref_group_name, {w}, {g}", proc_name(first, g), dict(must_cover={"named"})))
            out.append((f"write_object_array, {w}, {g}", proc_write(first, g), dict(must_cover={"written", "not written"}, max_paths=100000)))
    return out
