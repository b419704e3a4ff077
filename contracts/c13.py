"""C13: contract of does_dtype_have_a_zero_shape.

zero(dt), the specification, holds exactly if a length of the shape of dt is
zero, or zero(d) for the dtype d of a field of dt or for the base of dt if dt
is a sub-array.  dt is arbitrary: its parts are made up lazily, each with
any truth value of zero(part) that makes zero(dt) what it is; a field that
makes it true is anywhere among arbitrarily many others.  A worklist loop is
decided by the invariant  zero(dt) <=> zero(c) for some c of the worklist,
recursion by the contract itself.
"""
import collections

from pyvc.engine import FocusSeq, Invariant, Model, PathEnd, Sym, Unsupported, current

TRUSTED = [
    "numpy: a dtype has either fields, or a shape other than () and a base other than itself, or neither; shape, fields, names, base and "
    "subdtype agree with each other; dtypes are finite (recursion and worklist end)",
]


class Shape(FocusSeq):
    """The shape of a sub-array."""

    def __init__(self, ctx, zero):
        self.zero = zero

        def n(lo):
            x = ctx.int("length")
            ctx.assume(x.e >= lo)
            return x

        super().__init__([(True, n(0)), (False, 0), (True, n(0))] if zero else [(False, n(1)), (True, n(1))], tuple)

    def sym_contains(self, x):
        if x == 0 and not isinstance(x, Sym):
            return self.zero
        raise Unsupported("length in shape")

    def sym_bool(self):
        return True

    def sym_len(self):
        n = current().int("ndim")
        current().assume(n.e >= 1)
        return n

    def sym_eq(self, o):
        if isinstance(o, tuple) and not o:
            return False
        raise Unsupported("comparison of shapes")

    def index(self, x):
        if x == 0 and not isinstance(x, Sym):
            if not self.zero:
                raise ValueError("not in tuple")
            return current().int("index")
        raise Unsupported("index in shape")

    def count(self, x):
        if x == 0 and not isinstance(x, Sym):
            n = current().int("zeros")
            current().assume(n.e >= 1 if self.zero else n.e == 0)
            return n
        raise Unsupported("count in shape")


class Fields(Model):
    """The fields of a structured dtype, with at least one field."""

    def __init__(self, elems):
        self.elems = elems

    def sym_bool(self):
        return True

    def sym_len(self):
        n = current().int("fields")
        current().assume(n.e >= 1)
        return n

    def pair(self, d):
        return (d, current().int("offset")) if current().choose(2, "title") == 0 else (d, current().int("offset"), "title")

    def values(self):
        return FocusSeq([(g, self.pair(d)) for g, (_, d) in self.elems])

    def items(self):
        return FocusSeq([(g, (n, self.pair(d))) for g, (n, d) in self.elems])

    def keys(self):
        return FocusSeq([(g, n) for g, (n, _) in self.elems])

    def sym_iter(self):
        return self.keys()

    def sym_getitem(self, k):
        for _, (n, d) in self.elems:
            if n is k:
                return self.pair(d)
        raise Unsupported("another field")


class FieldName(Model):
    def sym_isinstance(self, cls):
        return issubclass(str, cls)


class Dt(Model):
    def __init__(self, ctx, zero, depth=0, leaf=False):
        self.ctx, self._zero, self.depth, self._kind = ctx, zero, depth, None

    def __repr__(self):
        return f"<dtype, zero: {self._zero}, {self._kind}>"

    def sym_isinstance(self, cls):
        import numpy as np

        return cls in (np.dtype, object)

    def zero(self):
        if self._zero is None:
            self._zero = self.ctx.choose(2, "has a zero shape") == 1
        return self._zero

    def part(self, zero):
        return Dt(self.ctx, zero, self.depth + 1)

    def expand(self):
        if self._kind is not None:
            return
        if self.depth > 6:
            raise Unsupported("no contract cuts the recursion")
        c = self.ctx
        self._kind = c.pick(["shape", "base", "field"] if self.zero() else ["plain", "base", "field"], "kind of dtype")
        self.fields_, self.shape_, self.base_ = None, (), self
        z = self.zero()
        if self._kind == "shape":
            self.shape_, self.base_ = Shape(c, True), self.part(None)
        elif self._kind == "base":
            self.shape_, self.base_ = Shape(c, False), self.part(z)
        elif self._kind == "field" and z:
            self.fields_ = Fields([(True, (FieldName(), self.part(None))), (False, (FieldName(), self.part(True))), (True, (FieldName(), self.part(None)))])
        elif self._kind == "field":
            self.fields_ = Fields([(False, (FieldName(), self.part(False))), (True, (FieldName(), self.part(False)))])

    def sym_getattr(self, n):
        if n in ("shape", "base", "fields", "names", "subdtype", "ndim", "hasobject", "itemsize", "num", "kind", "char", "str"):
            self.expand()
        if n == "shape":
            return self.shape_
        if n == "base":
            return self.base_
        if n == "fields":
            return self.fields_
        if n == "names":
            return None if self.fields_ is None else FocusSeq([(g, k) for g, (k, _) in self.fields_.elems], tuple)
        if n == "subdtype":
            return None if self.shape_ == () else (self.base_, self.shape_)
        if n == "ndim":
            return 0 if isinstance(self.shape_, tuple) else self.shape_.sym_len()
        raise Unsupported(f"attribute {n} of a dtype")

    def sym_getitem(self, k):
        self.expand()
        if self.fields_ is None:
            raise KeyError("there are no fields")
        return self.fields_.sym_getitem(k)[0]

    def sym_eq(self, o):
        if self is o:
            return True
        self.expand()
        if isinstance(o, Dt):
            o.expand()
            if self.base_ is o or o.base_ is self:
                return False  # a sub-array is not equal to its base
        raise Unsupported("comparison of dtypes")


class Bag(Model):
    """The worklist in an arbitrary iteration: has an element with zero() or not; any others."""

    def __init__(self, ctx, hit, pytype):
        self.ctx, self.hit, self.pytype, self.known, self.taken = ctx, hit, pytype, [], False

    def sym_isinstance(self, cls):
        return issubclass(self.pytype, cls)

    def sym_bool(self):
        if self.hit or self.known:
            return True
        if self.taken:
            raise Unsupported("truth of the rest of the worklist")
        self.nonempty = getattr(self, "nonempty", None)
        if self.nonempty is None:
            self.nonempty = self.ctx.choose(2, "worklist empty") == 0
        return self.nonempty

    def sym_len(self):
        n = self.ctx.int("length of the worklist")
        self.ctx.assume(n.e >= 1 if self.sym_bool() else n.e == 0)
        return n

    def pop(self, i=-1):
        if self.known or self.taken:
            raise Unsupported("two elements taken from the worklist in an iteration")
        if not self.sym_bool():
            raise IndexError("pop from an empty worklist")
        self.taken = True
        if self.hit and self.ctx.choose(2, "which element") == 0:
            self.hit = False  # the hardest case: it was the only one
            return Dt(self.ctx, True)
        return Dt(self.ctx, False) if not self.hit else Dt(self.ctx, None)

    def popleft(self):
        if self.pytype is not collections.deque:
            raise AttributeError("popleft")
        return self.pop()

    def append(self, x):
        self.known.append((current().in_generic, x))

    add = append
    appendleft = append

    def extend(self, o):
        if isinstance(o, (FocusSeq, Bag)):
            for g, x in o.take():
                self.known.append((current().in_generic or g, x))
        else:
            for x in current().interp.iterate(o):
                self.append(x)

    update = extend
    extendleft = extend

    def sym_binop(self, op, o, refl):
        if op == "Add" and isinstance(o, (FocusSeq, list, tuple)):
            self.extend(o)
            return self
        return NotImplemented


def elements(v):
    """(generic?, dtype) of a worklist, or None."""
    if isinstance(v, Bag):
        return v.known
    if isinstance(v, FocusSeq):
        v = v.take()
    elif isinstance(v, (list, set, collections.deque)):
        v = [(False, x) for x in v]
    else:
        return None
    return v if all(isinstance(x, Dt) for _, x in v) else None


class Worklist(Invariant):
    def __init__(self, ctx, root):
        self.ctx, self.root, self.name = ctx, root, None

    def find(self, fr):
        found = [n for n, v in fr.locals.items() if isinstance(v, (Bag, FocusSeq, list, set)) and elements(v)]
        if len(found) != 1:
            raise Unsupported("no single worklist")
        return found[0]

    def check(self, fr, when):
        if self.name is None:
            self.name = self.find(fr)
        v = fr.locals[self.name]
        es = elements(v)
        if es is None:
            raise Unsupported("worklist of another kind")
        some = (isinstance(v, Bag) and v.hit) or any(x.zero() for g, x in es if not g)
        anyhit = some or any(x.zero() for g, x in es if g)
        if self.root.zero():
            self.ctx.oblige(f"worklist:a part with a zero shape is still to come ({when})", some, repr(es))
        else:
            self.ctx.oblige(f"worklist:only parts of it ({when})", not anyhit, repr(es))

    def havoc(self, fr):
        v = fr.locals[self.name]
        t = v.pytype if isinstance(v, FocusSeq) else type(v)
        fr.locals[self.name] = Bag(self.ctx, self.root.zero(), t)


def other(dt):
    if not isinstance(dt, Dt):
        raise Unsupported("argument of the recursion")
    return dt.zero()


def proc(zero):
    def go(ctx):
        from hdf5storage import utilities as u

        it = ctx.interp
        root = Dt(ctx, zero)
        it.hooks["while"] = lambda itp, s, fr: Worklist(ctx, root)
        it.models[collections.deque] = lambda o=(): FocusSeq(o.take() if isinstance(o, FocusSeq) else [(False, x) for x in o], collections.deque)
        it.by_name["does_dtype_have_a_zero_shape"] = lambda dt: other(dt)
        e = None
        try:
            r = it.run_function(u.does_dtype_have_a_zero_shape, [root], {})
        except (Unsupported, PathEnd):
            raise
        except Exception as x:  # noqa: BLE001
            e, r = x, None
        if e is None and not isinstance(r, bool):
            raise Unsupported("result that is no bool")
        ctx.oblige("result:yes exactly if a shape in it has a zero", r == root.zero(), f"{r!r} {e!r} {root!r}")
        ctx.cover("decided")

    return go


def procedures(tier):
    return [(f"does_dtype_have_a_zero_shape, {w}", proc(z), dict(must_cover={"decided"})) for z, w in ((True, "has one"), (False, "has none"))]
