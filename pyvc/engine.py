"""A verification condition generator for the Python subset hdf5storage uses.

``Interp`` executes the AST of the functions found in /repo/src (parsed from
the files on every run, nothing is cached) over symbolic values.  Every path
through the code is visited (re-execution from a list of decisions; branches
are pruned by z3).  Obligations are proved with the path condition as
hypothesis.  Code outside of the repository is only reachable through models
(assumed contracts) or, if all of its arguments are concrete and it is pure,
by calling it.

A construct that cannot be handled raises ``Unsupported``: the obligations of
that procedure are then *undecided*, never silently accepted.
"""
from __future__ import annotations

import ast
import builtins
import functools
import inspect
import os
import sys
import time
import types

try:
    import z3
except ImportError:  # the z3 bindings live in the tooling environment
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3

realpath = functools.lru_cache(None)(os.path.realpath)
REPO_SRC = os.path.realpath("/repo/src/hdf5storage")


class EngineSignal(BaseException):
    """Never caught by interpreted code."""


class PathEnd(EngineSignal):
    """The path is infeasible or was cut by a proof rule."""


class Unsupported(EngineSignal):
    """Outside of the engine's reach: the obligations become undecided."""


class Budget(EngineSignal):
    """Too many paths or too much time: undecided."""


# ---------------------------------------------------------------------------
# symbolic values


class Sym:
    __slots__ = ("e",)
    pytype = object

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        raise Unsupported(f"hash of a symbolic {type(self).__name__}")

    def __bool__(self):
        raise Unsupported("native truth value of a symbolic value")

    def __eq__(self, other):
        raise Unsupported("native comparison of a symbolic value")

    def __repr__(self):
        return f"<{type(self).__name__} {z3.simplify(self.e)}>"


class SBool(Sym):
    pytype = bool


class SInt(Sym):
    pytype = int


class SStr(Sym):
    pytype = str


class Model:
    """Base of objects standing for something outside of the repository.

    Attributes and methods are used natively.  Hooks a subclass can define:
    ``sym_isinstance(cls)``, ``sym_type()``, ``sym_bool()``, ``sym_eq(other)``,
    ``sym_contains(x)``, ``sym_call(*a, **k)``, ``sym_iter()``, ``sym_len()``,
    ``sym_getitem``, ``sym_setitem``, ``sym_delitem``, ``sym_binop``.
    """

    def sym_isinstance(self, cls):
        raise Unsupported(f"isinstance({type(self).__name__}, {cls})")

    def sym_type(self):
        raise Unsupported(f"type of {type(self).__name__}")

    def sym_bool(self):
        raise Unsupported(f"truth of {type(self).__name__}")

    def sym_eq(self, other):
        return self is other

    def __hash__(self):
        return id(self)


class Opaque(Model):
    """An object the code may only pass on; it is of no type the code tests."""

    def __init__(self, label, types=(), truthy=None):
        self.label = label
        self.types = tuple(types)
        self.truthy = truthy

    def __repr__(self):
        return f"<{self.label}>"

    def sym_isinstance(self, cls):
        return any(issubclass(t, cls) for t in self.types)

    def sym_type(self):
        if self.types:
            return self.types[0]
        return OpaqueType

    def sym_bool(self):
        if self.truthy is None:
            raise Unsupported(f"truth of {self.label}")
        return self.truthy


class OpaqueType:
    """The type of an object that is of none of the types the code names."""


class Members:
    """Which of finitely many values an unknown value can still be."""

    def __init__(self, ctx, members, label):
        self.ctx, self.label = ctx, label
        self.live = list(members)


class Lift(Model):
    """f(x) of one x out of finitely many.  An operation whose outcome is a
    truth value or an exception decides which of them are left; any other
    outcome stays lifted."""

    def __init__(self, of, f=lambda x: x):
        self.of, self.f = of, f

    def __repr__(self):
        return f"<{self.of.label}: one of {[self.f(x) for x in self.of.live]}>"

    def map(self, op):
        outs = []
        for x in self.of.live:
            try:
                outs.append((False, op(self.f(x))))
            except EngineSignal:
                raise
            except Exception as e:  # noqa: BLE001
                outs.append((True, e))
        if not any(e for e, _ in outs):
            vs = [v for _, v in outs]
            if all(same_value(v, vs[0]) for v in vs[1:]):
                return vs[0]
            if not all(isinstance(v, bool) or v is None for v in vs):
                table = dict(zip(map(id, self.of.live), vs))
                return Lift(self.of, lambda x: table[id(x)])
        keys = [(type(v).__name__, v.args) if e else (False, v if isinstance(v, bool) or v is None else ()) for e, v in outs]
        kinds = []
        for k in keys:
            if k not in kinds:
                kinds.append(k)
        k = kinds[self.of.ctx.choose(len(kinds), f"which {self.of.label}")]
        keep = [i for i, y in enumerate(keys) if y == k]
        self.of.live = [self.of.live[i] for i in keep]
        if k[0] is not False:
            raise outs[keep[0]][1]
        if k[1] == ():
            return self.map(op)
        return k[1]

    def sym_eq(self, o):
        if isinstance(o, Lift):
            if o.of is not self.of:
                raise Unsupported("comparison of lifted values")
            table = {id(x): o.f(x) for x in self.of.live}
            return Lift(self.of, lambda x: (self.f(x), table[id(x)])).map(lambda p: bool(p[0] == p[1]))
        if isinstance(o, (Model, Sym)):
            return NotImplemented
        return self.map(lambda x: bool(x == o))

    def sym_is(self, o):
        return self.map(lambda x: x is o)

    def sym_in(self, c):
        return self.map(lambda x: x in c)

    def sym_index_of(self, c):
        return self.map(lambda x: c[x])

    def sym_contains(self, o):
        return self.map(lambda x: o in x)

    def sym_getitem(self, i):
        return self.map(lambda x: x[i])

    def sym_getattr(self, n):
        return self.map(lambda x: getattr(x, n))

    def sym_isinstance(self, cls):
        return self.map(lambda x: isinstance(x, cls))

    def sym_issubclass(self, cls):
        return self.map(lambda x: issubclass(x, cls))

    def sym_type(self):
        return self.map(type)

    def sym_bool(self):
        return self.map(bool)

    def sym_len(self):
        return self.map(len)

    def sym_str(self):
        return self.map(str)

    def sym_call(self, *a, **k):
        return self.map(lambda f: f(*[x for x in a], **k))

    def sym_binop(self, op, o, refl):
        import operator

        f = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "FloorDiv": operator.floordiv, "Mod": operator.mod}.get(op)
        if f is None or isinstance(o, (Model, Sym)):
            return NotImplemented
        return self.map(lambda x: f(o, x) if refl else f(x, o))


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b) or not isinstance(a, (str, int, bytes, tuple, float, np_dtype())):
        return False
    try:
        return bool(a == b)
    except Exception:  # noqa: BLE001
        return False


def np_dtype():
    import numpy as np

    return np.dtype


class Poison(Model):
    """A local carried around a loop: reading it is outside of the rule."""


POISON = Poison()


class BoundSym:
    """A method of a symbolic value."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class FDict(Model):
    """A dict display whose keys are symbolic: an association list."""

    def __init__(self, items=()):
        self.pairs = list(items)

    def sym_isinstance(self, cls):
        return issubclass(dict, cls)

    def sym_type(self):
        return dict

    def items(self):
        return list(self.pairs)

    def keys(self):
        return [k for k, _ in self.pairs]

    def values(self):
        return [v for _, v in self.pairs]

    def sym_iter(self):
        return iter(self.keys())

    def sym_bool(self):
        return bool(self.pairs)


class FocusSeq(Model):
    """An arbitrary finite sequence  generic* focus generic* .

    ``elems`` is a list of (generic?, value).  A generic element stands for an
    arbitrary number of arbitrary elements.  Rule: the loop body is executed
    on each representative with all locals it assigns poisoned beforehand (no
    information flows between iterations), a generic segment may also be empty.
    What the body does to state is recorded by the models.
    """

    def __init__(self, elems, pytype=list, on_take=None):
        self.elems = list(elems)
        self.pytype = pytype
        self.on_take = on_take
        self.images = None

    def image_of(self, x):
        """The element at the place that x has in the sequence this one was
        made from one by one."""
        if any(y is x for _, y in self.elems):
            return x
        if self.images is not None and self.images[1] == len(self.elems):
            for a, b in self.images[0]:
                if a is x:
                    return b
        raise Unsupported("index of one sequence in another")

    def made_from(self, pairs):
        if len(pairs) == len(self.elems) and all(b is e for (_, b), (_, e) in zip(pairs, self.elems)):
            self.images = (pairs, len(pairs))

    def take(self):
        """The elements an iteration over it gives."""
        if self.on_take is not None:
            r = self.on_take(self)
            if r is not None:
                return r
        return list(self.elems)

    def sym_isinstance(self, cls):
        try:
            return issubclass(self.pytype, cls)
        except TypeError as e:
            raise Unsupported(str(e)) from e

    def sym_type(self):
        return self.pytype

    def append(self, x):
        self.elems.append((current().in_generic, x))

    def extend(self, o):
        if isinstance(o, FocusSeq):
            for g, x in o.take():
                self.elems.append((current().in_generic or g, x))
        else:
            for x in current().interp.iterate(o):
                self.append(x)

    def clear(self):
        if current().in_generic:
            raise Unsupported("state changed in a loop over an arbitrary sequence")
        self.elems = []

    def copy(self):
        return FocusSeq(self.take(), self.pytype)

    def remove(self, x):
        """Removes an element given by identity."""
        for i, (g, y) in enumerate(self.elems):
            if y is x:
                del self.elems[i]
                return
        raise ValueError("not in list")

    def sym_contains(self, x):
        if isinstance(x, Model) and x.sym_eq(x) is True and type(x).sym_eq is Model.sym_eq:
            return any(y is x for _, y in self.elems)
        raise Unsupported("membership in an arbitrary sequence")

    def sym_binop(self, op, o, refl):
        if op == "Add" and isinstance(o, (FocusSeq, list, tuple)):
            e = o.take() if isinstance(o, FocusSeq) else [(False, x) for x in o]
            return FocusSeq(e + self.elems if refl else self.elems + e, self.pytype)
        return NotImplemented

    def plain(self, what):
        if any(g for g, _ in self.elems):
            raise Unsupported(f"{what} of an arbitrary sequence")
        return [v for _, v in self.elems]

    def sym_len(self):
        h = current().interp.hooks.get("focus_len")
        if h is not None and any(g for g, _ in self.elems):
            return h(self)
        return len(self.plain("length"))

    def sym_getitem(self, i):
        if isinstance(i, Idx):
            return self.image_of(i.elem)
        if isinstance(i, Sym):
            raise Unsupported("index of an arbitrary sequence")
        r = self.plain("index")[i]
        return FocusSeq([(False, x) for x in r], self.pytype) if isinstance(i, slice) else r

    def values_list(self):
        return [v for _, v in self.elems]

    def sym_bool(self):
        if any(not g for g, _ in self.elems):
            return True
        return bool(self.plain("truth"))


class Star(Model):
    """Arbitrarily many arguments of a modelled function."""

    def __init__(self, elems):
        self.elems = elems


class Once(Model):
    """An iterator that was taken from a model."""

    def __init__(self, it):
        self.it = it

    def sym_iter(self):
        return self.it


class Idx(Model):
    """The position of an element in an arbitrary sequence."""

    def __init__(self, elem):
        self.elem = elem

    def sym_isinstance(self, cls):
        return issubclass(int, cls)

    def sym_compare(self, op, a, b):
        f = getattr(b if a is self else a, "sym_compare_idx", None)
        if f is None:
            raise Unsupported("comparison of an index")
        return f(op, a, b)


class Invariant:
    """Loop invariant of a while loop: check(frame, when) and havoc(frame)."""


class FocusDict(Model):
    """A dict filled while going over arbitrary sequences: generic* focus generic*."""

    def __init__(self, elems=()):
        self.elems = list(elems)  # (generic?, (key, value))

    def sym_isinstance(self, cls):
        return issubclass(dict, cls)

    def sym_type(self):
        return dict

    def find(self, k):
        for i, (_, (x, _)) in enumerate(self.elems):
            if x is k:
                return i
            if isinstance(x, (Sym, str)) or isinstance(k, (Sym, str)):
                if current().interp.truth(current().interp.eq(x, k)):
                    return i
        return None

    def sym_setitem(self, k, v):
        i = self.find(k)
        if i is None:
            self.elems.append((current().in_generic, (k, v)))
        else:
            self.elems[i] = (self.elems[i][0], (k, v))

    def sym_getitem(self, k):
        i = self.find(k)
        if i is None:
            raise KeyError(str(k))
        return self.elems[i][1][1]

    def sym_contains(self, k):
        return self.find(k) is not None

    def get(self, k, d=None):
        i = self.find(k)
        return d if i is None else self.elems[i][1][1]

    def items(self):
        return FocusSeq(self.elems)

    def keys(self):
        return FocusSeq([(g, k) for g, (k, _) in self.elems])

    def values(self):
        return FocusSeq([(g, v) for g, (_, v) in self.elems])

    def copy(self):
        return FocusDict(self.elems)

    def update(self, o=(), **kw):
        if isinstance(o, FocusDict):
            o = o.elems
        elif isinstance(o, FocusSeq):
            o = o.take()
        else:
            raise Unsupported("update")
        for g, (k, v) in o:
            saved = current().in_generic
            current().in_generic = saved or g
            try:
                self.sym_setitem(k, v)
            finally:
                current().in_generic = saved

    def sym_bool(self):
        return FocusSeq(self.elems).sym_bool()

    def sym_len(self):
        return FocusSeq(self.elems).sym_len()


_CUR = []


def current():
    return _CUR[-1]


# ---------------------------------------------------------------------------
# paths, obligations


class Obligation:
    __slots__ = ("name", "status", "detail", "time", "path")

    def __init__(self, name, status, detail, t, path):
        self.name, self.status, self.detail, self.time, self.path = name, status, detail, t, path


class Ctx:
    def __init__(self, run, decisions):
        self.run = run
        self.decisions = list(decisions)
        self.pos = 0
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", run.timeout_ms)
        self.trace = []
        self.in_generic = False
        self.fresh_n = {}
        self.protected = {}
        self.created = []
        self.lits = {}
        self.interp = None
        self.notes = []

    # -- symbols
    def name(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return base if n == 0 else f"{base}!{n}"

    def bool(self, base):
        return SBool(z3.Bool(self.name(base)))

    def int(self, base):
        return SInt(z3.Int(self.name(base)))

    def str(self, base):
        return SStr(z3.String(self.name(base)))

    # -- decisions
    def _decide(self, n, label, kind=None):
        what = label if kind is None else kind
        if self.pos < len(self.decisions):
            k, was = self.decisions[self.pos]
            if was != what:
                raise Unsupported(f"re-execution differs: {was} was decided, not {what}")
        else:
            k = 0
            self.decisions.append((0, what))
            for alt in range(n - 1, 0, -1):
                self.run.stack.append(self.decisions[:-1] + [(alt, what)])
        self.pos += 1
        self.trace.append(f"{label}={k}")
        return k

    def choose(self, n, label):
        if n == 1:
            return 0
        return self._decide(n, label)

    def pick(self, seq, label):
        seq = list(seq)
        return seq[self.choose(len(seq), label)]

    def _check(self, *es):
        self.run.queries += 1
        t = time.time()
        r = self.solver.check(*es)
        self.run.solver_s += time.time() - t
        return r

    def assume(self, cond):
        e = zb(cond)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathEnd
        self._add(e)
        if self._check() == z3.unsat:
            raise PathEnd

    def _add(self, e):
        self.pc.append(e)
        self.solver.add(e)
        lit, val = (e.arg(0), False) if z3.is_not(e) else (e, True)
        self.lits[lit.get_id()] = (lit, val)

    def branch(self, cond, label=None):
        e = zb(cond)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        lit, neg = (e.arg(0), True) if z3.is_not(e) else (e, False)
        known = self.lits.get(lit.get_id())
        if known is not None:
            return known[1] != neg
        if self.pos < len(self.decisions):
            k = self._decide(2, label or "if", "if")
            val = k == 0
            # replay: the decision was feasible when it was recorded
            self._add(e if val else z3.Not(e))
            if self.pos == len(self.decisions) and self._check() == z3.unsat:
                raise PathEnd
            return val
        plain = z3.is_const(lit) and lit.decl().kind() == z3.Z3_OP_UNINTERPRETED
        if not plain:
            # a forced branch is recorded too (without an alternative): replays consume a decision here
            if self._check(e) == z3.unsat:
                self._forced(1)
                self._add(z3.Not(e))
                return False
            if self._check(z3.Not(e)) == z3.unsat:
                self._forced(0)
                self._add(e)
                return True
        val = self._decide(2, label or short(e), "if") == 0
        self._add(e if val else z3.Not(e))
        if plain and len(self.pc) > 1 and self._check() == z3.unsat:
            raise PathEnd
        return val

    def _forced(self, k):
        self.decisions.append((k, "if"))
        self.pos += 1

    def must(self, cond):
        e = zb(cond)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self._check(z3.Not(e)) == z3.unsat

    # -- obligations
    def oblige(self, name, cond, detail=""):
        t = time.time()
        if isinstance(cond, bool):
            st = "discharged" if cond else "refuted"
            if not cond and self._check() == z3.unsat:
                raise PathEnd
        else:
            e = zb(cond)
            r = self._check(z3.Not(e))
            if r == z3.unsat:
                st = "discharged"
            elif r == z3.sat:
                st = "refuted"
                m = self.solver.model()
                detail = f"{detail() if callable(detail) else detail} counterexample {model_str(m)}"
            else:
                st, detail = self.run.second_opinion(self.pc, e, detail)
        if callable(detail):
            detail = detail()
        self.run.obligations.append(Obligation(name, st, str(detail)[:1500], time.time() - t, list(self.trace)))
        return st == "discharged"

    def cover(self, name):
        self.run.covers.add(name)


def model_str(m):
    try:
        return ", ".join(f"{d.name()}={m[d]}" for d in m.decls() if d.arity() == 0)[:800]
    except Exception:  # noqa: BLE001
        return ""


def short(e):
    s = str(e).replace("\n", " ")
    return s if len(s) < 60 else s[:57] + "..."


def zb(c):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, SBool):
        return z3.simplify(c.e)
    if z3.is_expr(c):
        return z3.simplify(c)
    raise Unsupported(f"condition {c!r}")


def zi(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(v):
        return v
    raise Unsupported(f"integer {v!r}")


def zs(v):
    if isinstance(v, str):
        return z3.StringVal(v)
    if isinstance(v, SStr):
        return v.e
    if z3.is_expr(v):
        return v
    raise Unsupported(f"string {v!r}")


class Run:
    """Explores all paths of one proof procedure."""

    def __init__(self, name, proc, timeout_ms=5000, max_paths=4000, max_s=120.0, must_cover=()):
        self.name, self.proc = name, proc
        self.timeout_ms, self.max_paths, self.max_s = timeout_ms, max_paths, max_s
        self.must_cover = set(must_cover)
        self.stack = [[]]
        self.obligations = []
        self.covers = set()
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.ended = 0
        self.undecided = []
        self.functions = set()
        self.second = 0

    def second_opinion(self, pc, e, detail):
        """z3 gave no answer: ask cvc5 with the same query."""
        import subprocess
        import tempfile

        s = z3.Solver()
        s.add(*pc)
        s.add(z3.Not(e))
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write("(set-logic ALL)\n" + s.to_smt2())
            out = subprocess.run(
                ["cvc5", "--tlimit=20000", "--strings-exp", f.name], capture_output=True, text=True, timeout=30,
            ).stdout.split()
            os.unlink(f.name)
            self.second += 1
            if out and out[0] == "unsat":
                return "discharged", "cvc5"
            if out and out[0] == "sat":
                return "refuted", f"{detail} (cvc5)"
        except Exception:  # noqa: BLE001
            pass
        return "undecided", f"{detail} solver gave no answer"

    def execute(self):
        t0 = time.time()
        while self.stack:
            if self.paths >= self.max_paths or time.time() - t0 > self.max_s:
                self.undecided.append(f"path budget reached ({self.paths} paths, {time.time() - t0:.0f} s)")
                break
            dec = self.stack.pop()
            ctx = Ctx(self, dec)
            ctx.interp = Interp(ctx)
            _CUR.append(ctx)
            self.paths += 1
            try:
                self.proc(ctx)
                self.ended += 1
            except PathEnd:
                pass
            except Unsupported as e:
                self.undecided.append(f"{e} [{ctx.interp.where()}]")
                if os.environ.get("PYVC_DEBUG"):
                    import traceback
                    traceback.print_exc()
                if len(self.undecided) > 20:
                    break
            except RecursionError:
                self.undecided.append("recursion limit")
            except EngineSignal as e:
                self.undecided.append(repr(e))
            except Exception as e:  # noqa: BLE001  a contract procedure failed
                self.undecided.append(f"internal {type(e).__name__}: {e} [{ctx.interp.where()}]")
                if os.environ.get("PYVC_DEBUG"):
                    import traceback
                    traceback.print_exc()
                if len(self.undecided) > 20:
                    break
            finally:
                _CUR.pop()
                for o in ctx.created:  # so that no finalizer of it does anything
                    getattr(o, "__dict__", {}).clear()
        for c in sorted(self.must_cover - self.covers):
            self.undecided.append(f"cover point {c} is not reachable")
        if not self.obligations:
            self.undecided.append("no obligation was generated")
        self.wall_s = time.time() - t0
        return self


# ---------------------------------------------------------------------------
# source of the functions


class Source:
    _files = {}

    @classmethod
    def load(cls, filename):
        if filename.startswith("<frozen "):  # modules of the standard library that are part of the interpreter
            filename = os.path.join(os.path.dirname(os.__file__), filename[8:-1].replace(".", os.sep) + ".py")
        filename = realpath(filename)
        if filename not in cls._files:
            with open(filename, encoding="utf-8") as f:
                text = f.read()
            tree = ast.parse(text, filename)
            index = {}
            for node in ast.walk(tree):
                if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
                    index[(node.name, first)] = node
                elif isinstance(node, ast.Lambda):
                    index.setdefault(("<lambda>", node.lineno), node)
            cls._files[filename] = index
        return cls._files[filename]

    @classmethod
    def node(cls, fn):
        code = fn.__code__
        idx = cls.load(code.co_filename)
        try:
            return idx[(code.co_name, code.co_firstlineno)]
        except KeyError:
            raise Unsupported(f"no source of {fn.__qualname__}") from None


def is_repo_function(fn):
    return isinstance(fn, types.FunctionType) and realpath(fn.__code__.co_filename).startswith(REPO_SRC + os.sep)


LEAVES = {str, int, bool, float, bytes, type, type(None), types.FunctionType, types.ModuleType, types.MethodType}


def is_repo_class(c):
    return isinstance(c, type) and (c.__module__ or "").split(".")[0] == "hdf5storage"


class IFunc:
    """A function or lambda defined by interpreted code."""

    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.__name__ = node, frame, defaults, kwdefaults, name


class Frame:
    def __init__(self, glb, closure=None, fn=None, cls_name=None, defcls=None):
        self.locals = {}
        self.globals = glb
        self.closure = closure  # Frame or dict
        self.fn = fn
        self.cls_name = cls_name
        self.defcls = defcls
        self.globalnames = set()
        self.nonlocals = set()


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


_CONTROL = (Ret, Brk, Cont)

_PURE_MODULES = {
    "posixpath", "operator", "_operator", "collections", "collections.abc", "itertools", "copy", "datetime", "math", "re",
    "functools", "types", "typing", "builtins", "numpy", "fractions", "string", "genericpath", "pathlib", "_collections_abc",
    "abc", "inspect", "enum", "contextlib", "numpy.core.multiarray", "numpy.core.numerictypes", "copyreg", "struct", "ast",
}
_IMPURE = {"open", "exec", "eval", "input", "compile", "__import__", "breakpoint"}


def has_sym(v, depth=0):
    if isinstance(v, (Sym, Model, BoundSym, IFunc)):
        return True
    if depth > 6:
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(has_sym(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(has_sym(x, depth + 1) for x in v.values()) or any(has_sym(x, depth + 1) for x in v.keys())
    return False


PLAIN = (ast.Tuple, ast.Compare, ast.Attribute, ast.Name, ast.Constant, ast.UnaryOp, ast.Not, ast.Load, ast.cmpop, ast.BoolOp, ast.boolop)


def plain(e):
    return all(isinstance(n, PLAIN) or isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) or (
        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get") or (
        isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "len", "type", "bool", "str")) for n in ast.walk(e))


LIFTABLE = {issubclass, len, str, repr, bool, getattr, hasattr, type}


class Interp:
    def __init__(self, ctx):
        self.ctx = ctx
        self.models = {}  # function object -> python callable
        self.by_name = {}  # (qualname) -> python callable, contracts of repo functions
        self.hooks = {}
        self.stack = []
        self.steps = 0
        self.speculating = 0
        self.max_steps = 400000
        self.list_factory = None
        self.depth = 0
        self.cur_exc = []

    def where(self):
        if not self.stack:
            return "?"
        fr, node = self.stack[-1]
        return f"{getattr(fr.fn, '__qualname__', getattr(fr.fn, '__name__', '?'))}:{getattr(node, 'lineno', '?')}"

    # -- calls ----------------------------------------------------------
    def call(self, fn, *args, **kwargs):
        return self.call_(fn, list(args), dict(kwargs))

    def key(self, fn):
        try:
            hash(fn)
        except (TypeError, EngineSignal):
            return None
        return fn

    def call_(self, fn, args, kwargs):
        if isinstance(fn, BoundSym):
            return self.sym_method(fn.obj, fn.name, args, kwargs)
        if isinstance(fn, IFunc):
            return self.run_ifunc(fn, args, kwargs)
        if isinstance(fn, Model):
            m = getattr(fn, "sym_call", None)
            if m is None:
                raise Unsupported(f"call of {fn!r}")
            return m(*args, **kwargs)
        if isinstance(fn, types.MethodType):
            f, obj = fn.__func__, fn.__self__
            if self.key(f) in self.models:
                return self.models[f](obj, *args, **kwargs)
            if is_repo_function(f):
                return self.call_repo(f, [obj] + args, kwargs)
            if isinstance(obj, Model):
                return self.native(fn, args, kwargs)
            if self.key(f) is not None and isinstance(f, types.FunctionType) and f.__module__ in ("_collections_abc", "collections.abc"):
                return self.call_stdlib(f, [obj] + args, kwargs)
            return self.call_external(fn, args, kwargs)
        k = self.key(fn)
        if k is not None and k in self.models:
            return self.models[fn](*args, **kwargs)
        if is_repo_function(fn):
            return self.call_repo(fn, args, kwargs)
        if isinstance(fn, type) and is_repo_class(fn) and not issubclass(fn, BaseException):
            return self.instantiate(fn, args, kwargs)
        if len(args) > 0 and sum(isinstance(a, Lift) for a in args) == 1 and not kwargs and k is not None and not any(
            has_sym(a) for a in args if not isinstance(a, Lift)
        ) and (fn in LIFTABLE or isinstance(getattr(fn, "__self__", None), (dict, str, tuple, frozenset)) and fn.__name__ in (
            "get", "__contains__", "__getitem__", "startswith", "endswith", "count", "index")) and not has_sym(getattr(fn, "__self__", None)):
            i = next(i for i, a in enumerate(args) if isinstance(a, Lift))
            return args[i].map(lambda x: fn(*args[:i], x, *args[i + 1:]))
        if k is not None:
            b = getattr(self, "bi_" + fn.__name__, None) if getattr(builtins, getattr(fn, "__name__", "?"), None) is fn else None
            if b is not None:
                return b(*args, **kwargs)
        if isinstance(fn, types.FunctionType) and self.hooks.get("inline_std") and fn.__module__ in self.hooks["inline_std"]:
            return self.call_stdlib(fn, args, kwargs)
        return self.call_external(fn, args, kwargs)

    def native(self, fn, args, kwargs):
        return fn(*args, **kwargs)

    def call_stdlib(self, fn, args, kwargs):
        """Interpret a pure Python standard library function."""
        return self.run_function(fn, args, kwargs)

    def call_external(self, fn, args, kwargs):
        mod = getattr(fn, "__module__", None)
        selfobj = getattr(fn, "__self__", None)
        name = getattr(fn, "__name__", repr(fn))
        if isinstance(fn, type) and issubclass(fn, BaseException):
            return fn(*[self.describe(a) for a in args])
        if isinstance(selfobj, Model):
            return fn(*args, **kwargs)
        if isinstance(selfobj, (list, dict, set, tuple, collections_deque())) and not isinstance(selfobj, type):
            r = self.container_method(selfobj, name, args, kwargs)
            if r is not NotImplemented:
                return r
        if name == "join" and isinstance(selfobj, (str, bytes)) and len(args) == 1 and isinstance(args[0], FocusSeq) and self.hooks.get("join"):
            return self.hooks["join"](selfobj, args[0])
        if type(selfobj).__name__ == "Pattern" and self.hooks.get("pattern") and any(isinstance(a, Model) for a in args):
            return self.hooks["pattern"](selfobj, name, args, kwargs)
        if any(has_sym(a) for a in args) or any(has_sym(a) for a in kwargs.values()) or (
            selfobj is not None and not isinstance(selfobj, types.ModuleType) and has_sym(selfobj)
        ):
            raise Unsupported(f"external call {mod}.{name} with symbolic arguments")
        if name in _IMPURE and mod == "builtins":
            raise Unsupported(f"call of {name}")
        base = mod or (type(selfobj).__module__ if selfobj is not None else "builtins")
        if base not in _PURE_MODULES and base.split(".")[0] not in {"numpy", "re", "collections", "pathlib"}:
            if not (isinstance(fn, type)):
                raise Unsupported(f"external call {mod}.{name}")
            raise Unsupported(f"external class {mod}.{name}")
        return fn(*args, **kwargs)

    def describe(self, a):
        return str(a) if isinstance(a, (Sym, Model)) else a

    def guard(self, obj):
        """State that exists before a loop over an arbitrary sequence must not
        change inside of an arbitrary iteration (the rule runs one of many)."""
        if self.ctx.in_generic and id(obj) in self.ctx.protected:
            raise Unsupported("state changed in a loop over an arbitrary sequence")

    def protect(self, fr):
        """Remember all containers and repository objects alive at a loop."""
        seen = self.ctx.protected
        todo = [f.locals for f, _ in self.stack] + [fr.locals]
        frames = {id(o) for o in todo[:-1]}
        done = set()
        while todo:
            o = todo.pop()
            if type(o) in LEAVES or id(o) in done or (id(o) in seen and not isinstance(o, dict)):
                continue
            done.add(id(o))
            if isinstance(o, dict):
                vals = list(o.values())
            elif isinstance(o, (list, tuple, set)):
                vals = list(o)
            elif is_repo_class(type(o)):
                vals = list(getattr(o, "__dict__", {}).values())
            else:
                continue
            if id(o) in seen:
                continue
            if id(o) not in frames:
                seen[id(o)] = o
            todo.extend(vals)

    def container_method(self, obj, name, args, kwargs):
        if name not in ("items", "keys", "values", "copy", "get", "index", "count"):
            self.guard(obj)
        if isinstance(obj, list) and name in ("append", "extend", "insert", "pop", "reverse", "clear", "copy"):
            return getattr(obj, name)(*[self.to_native_seq(a) if name == "extend" else a for a in args])
        if isinstance(obj, dict):
            if name in ("items", "keys", "values", "copy", "clear") and not args:
                return getattr(obj, name)()
            if name in ("get", "pop", "setdefault") and args and isinstance(args[0], Sym):
                k = self.find_key(obj, args[0])
                if k is None:
                    if name == "get":
                        return args[1] if len(args) > 1 else None
                    if name == "pop" and len(args) > 1:
                        return args[1]
                    if name == "pop":
                        raise KeyError(self.describe(args[0]))
                    raise Unsupported("setdefault with a symbolic key")
                return getattr(obj, name)(k, *args[1:])
            if name in ("get", "pop", "setdefault", "update"):
                return getattr(obj, name)(*args, **kwargs)
        if isinstance(obj, set) and name in ("add", "discard", "remove") and not isinstance(args[0], Sym):
            return getattr(obj, name)(*args)
        if isinstance(obj, tuple) or isinstance(obj, list):
            if name == "index" or name == "count":
                return NotImplemented
        return NotImplemented

    def find_key(self, d, sk):
        for k in d:
            if self.truth(self.eq(k, sk)):
                return k
        return None

    def to_native_seq(self, v):
        return list(self.iterate(v))

    def call_repo(self, fn, args, kwargs):
        if self.speculating:
            raise Unsupported("call in an operand that may not be evaluated")
        q = fn.__module__ + "." + fn.__qualname__
        c = self.by_name.get(fn.__qualname__) or self.by_name.get(q)
        if c is not None:
            return c(*args, **kwargs)
        return self.run_function(fn, args, kwargs)

    def instantiate(self, cls, args, kwargs):
        c = self.by_name.get(cls.__qualname__)
        if c is not None:
            return c(*args, **kwargs)
        obj = object.__new__(cls)
        self.ctx.created.append(obj)
        init = inspect.getattr_static(cls, "__init__")
        if is_repo_function(init):
            self.call_repo(init, [obj] + args, kwargs)
        elif args or kwargs:
            raise Unsupported(f"constructor of {cls.__qualname__}")
        return obj

    def run_function(self, fn, args, kwargs):
        node = Source.node(fn)
        self.ctx.run.functions.add(fn.__module__ + "." + fn.__qualname__)
        closure = None
        defcls = None
        if fn.__closure__:
            closure = {}
            for n, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    closure[n] = cell.cell_contents
                except ValueError:
                    pass
            defcls = closure.get("__class__")
        parts = fn.__qualname__.split(".")
        cls_name = parts[-2] if len(parts) > 1 and parts[-2] != "<locals>" else None
        fr = Frame(fn.__globals__, closure, fn, cls_name, defcls)
        self.bind(fr, node.args, fn.__defaults__ or (), fn.__kwdefaults__ or {}, args, kwargs, fn.__qualname__)
        return self.run_body(fr, node)

    def run_ifunc(self, f, args, kwargs):
        fr = Frame(f.frame.globals, f.frame, f, f.frame.cls_name, f.frame.defcls)
        self.bind(fr, f.node.args, f.defaults, f.kwdefaults, args, kwargs, f.__name__)
        return self.run_body(fr, f.node)

    def run_body(self, fr, node):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("call depth")
        self.stack.append((fr, node))
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if self.is_generator(node):
                out = self.list_factory() if self.list_factory is not None else []
                fr.locals["__yield__"] = out = out if type(out) is FocusSeq else []
                try:
                    self.exec_block(node.body, fr)
                except Ret:
                    pass
                if isinstance(out, FocusSeq):
                    return out if any(g for g, _ in out.elems) else iter(out.plain("generator"))
                return iter(out)
            try:
                self.exec_block(node.body, fr)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.stack.pop()

    _gen_cache = {}

    def is_generator(self, node):
        k = id(node)
        if k not in self._gen_cache:
            found = False
            todo = list(node.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    found = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                todo.extend(ast.iter_child_nodes(n))
            self._gen_cache[k] = (found, node)
        return self._gen_cache[k][0]

    def bind(self, fr, a, defaults, kwdefaults, args, kwargs, name):
        params = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        loc = fr.locals
        for i, n in enumerate(params):
            if i < len(args):
                if n in kwargs:
                    raise TypeError(f"{name}() got multiple values for argument '{n}'")
                loc[n] = args[i]
            elif n in kwargs:
                loc[n] = kwargs.pop(n)
            else:
                j = i - (len(params) - len(defaults))
                if j < 0:
                    raise TypeError(f"{name}() missing argument '{n}'")
                loc[n] = defaults[j]
        if len(args) > len(params):
            if a.vararg is None:
                raise TypeError(f"{name}() takes {len(params)} positional arguments")
            loc[a.vararg.arg] = tuple(args[len(params):])
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                loc[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                loc[x.arg] = kwdefaults[x.arg]
            else:
                raise TypeError(f"{name}() missing keyword argument '{x.arg}'")
        if a.kwarg is not None:
            loc[a.kwarg.arg] = kwargs
        elif kwargs:
            raise TypeError(f"{name}() got an unexpected keyword argument {list(kwargs)[0]!r}")

    # -- statements -----------------------------------------------------
    def exec_block(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, s, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("too many steps")
        self.stack[-1] = (self.stack[-1][0], s)
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, fr)

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Return(self, s, fr):
        raise Ret(self.eval(s.value, fr) if s.value is not None else None)

    def st_Break(self, s, fr):
        raise Brk

    def st_Continue(self, s, fr):
        raise Cont

    def st_Global(self, s, fr):
        fr.globalnames.update(s.names)

    def st_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def st_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        if isinstance(s.target, ast.Name):
            old = self.load_name(s.target.id, fr)
            self.assign(s.target, self.binop(s.op, old, self.eval(s.value, fr), inplace=True), fr)
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, fr)
            n = self.mangle(s.target.attr, fr)
            self.setattr(o, n, self.binop(s.op, self.getattr(o, n), self.eval(s.value, fr), inplace=True))
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, fr)
            i = self.eval(s.target.slice, fr)
            self.setitem(o, i, self.binop(s.op, self.getitem(o, i), self.eval(s.value, fr), inplace=True))

    def st_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def st_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise AssertionError

    def st_FunctionDef(self, s, fr):
        f = IFunc(
            s, fr, tuple(self.eval(d, fr) for d in s.args.defaults),
            {a.arg: self.eval(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}, s.name,
        )
        if s.decorator_list:
            raise Unsupported("decorated inner function")
        self.store_name(s.name, f, fr)

    def st_Import(self, s, fr):
        import importlib

        for a in s.names:
            m = importlib.import_module(a.name)
            self.store_name(a.asname or a.name.split(".")[0], m if a.asname else sys.modules[a.name.split(".")[0]], fr)

    def st_ImportFrom(self, s, fr):
        import importlib

        pkg = fr.globals.get("__package__") or ""
        m = importlib.import_module("." * s.level + (s.module or ""), pkg)
        for a in s.names:
            self.store_name(a.asname or a.name, getattr(m, a.name), fr)

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.locals:
                    raise UnboundLocalError(t.id)
                del fr.locals[t.id]
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                object.__delattr__(o, self.mangle(t.attr, fr))
            else:
                raise Unsupported("del target")

    def st_Raise(self, s, fr):
        if s.exc is None:
            if not self.cur_exc:
                raise RuntimeError("No active exception to reraise")
            raise self.cur_exc[-1]
        e = self.eval(s.exc, fr)
        if isinstance(e, type):
            e = self.call(e)
        if s.cause is not None:
            self.eval(s.cause, fr)
        if isinstance(e, Model) and hasattr(e, "as_exception"):
            e = e.as_exception()
        raise e

    def st_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except _CONTROL:
                raise
            except Exception as e:  # noqa: BLE001
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.eval(h.type, fr)
                        match = isinstance(e, t)
                    if match:
                        if h.name:
                            fr.locals[h.name] = e
                        self.cur_exc.append(e)
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.cur_exc.pop()
                            if h.name:
                                fr.locals.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except EngineSignal:
            raise
        except BaseException:
            if s.finalbody:
                self.exec_block(s.finalbody, fr)
            raise
        else:
            self.exec_block(s.finalbody, fr)

    def st_With(self, s, fr):
        self.with_items(s.items, s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.exec_block(body, fr)
            return
        it = items[0]
        mgr = self.eval(it.context_expr, fr)
        val = self.call(self.getattr(mgr, "__enter__"))
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, fr)
        exitm = self.getattr(mgr, "__exit__")
        try:
            self.with_items(items[1:], body, fr)
        except EngineSignal:
            raise
        except _CONTROL:
            self.call(exitm, None, None, None)
            raise
        except Exception as e:  # noqa: BLE001
            if isinstance(mgr, Model) or is_repo_class(type(mgr)):
                r = self.call(exitm, type(e), e, None)
            else:
                r = exitm(type(e), e, None)
            if not self.truth(r):
                raise
        else:
            if isinstance(mgr, Model) or is_repo_class(type(mgr)):
                self.call(exitm, None, None, None)
            else:
                exitm(None, None, None)

    def st_While(self, s, fr):
        n = 0
        pre = self.ctx.pos
        while True:
            head = self.ctx.pos
            hook = self.hooks.get("while")
            if hook is not None and n == 0:
                r = hook(self, s, fr)
                if r == "inductive":
                    self.inductive_while(s, fr)
                    return
                if isinstance(r, Invariant):
                    self.invariant_while(s, fr, r)
                    return
            if not self.truth(self.eval(s.test, fr)):
                break
            try:
                self.exec_block(s.body, fr)
            except Brk:
                return
            except Cont:
                pass
            n += 1
            if n > 64 or (n > 3 and self.ctx.pos > head and self.ctx.pos > pre + 8):
                raise Unsupported("unbounded while loop without an invariant")
        self.exec_block(s.orelse, fr)

    def invariant_while(self, s, fr, inv):
        """Holds at first; one arbitrary iteration keeps it; what follows assumes it."""
        inv.check(fr, "at first")
        for n in assigned_names(s.body):
            fr.locals[n] = POISON
        inv.havoc(fr)
        if not self.truth(self.eval(s.test, fr)):
            self.exec_block(s.orelse, fr)
            return
        try:
            self.exec_block(s.body, fr)
        except Brk:
            return
        except Cont:
            pass
        inv.check(fr, "kept")
        raise PathEnd

    def inductive_while(self, s, fr):
        """One arbitrary iteration from an arbitrary state of the locals the
        body assigns; reaching the head again cuts the path."""
        for n in assigned_names(s.body):
            fr.locals[n] = POISON
        if not self.truth(self.eval(s.test, fr)):
            self.exec_block(s.orelse, fr)
            return
        try:
            self.exec_block(s.body, fr)
        except Brk:
            return
        except Cont:
            pass
        raise PathEnd

    def focus(self, v):
        """What an iteration over v goes over, if that is an arbitrary sequence."""
        if isinstance(v, Model) and not isinstance(v, FocusSeq) and hasattr(v, "sym_iter"):
            r = v.sym_iter() if not isinstance(v, Once) else v.it
            return r if isinstance(r, FocusSeq) else Once(r)
        if is_repo_class(type(v)) and inspect.getattr_static(type(v), "__iter__", None) is not None:
            return self.call(self.getattr(v, "__iter__"))
        return v

    def st_For(self, s, fr):
        it = self.focus(self.eval(s.iter, fr))
        if isinstance(it, FocusSeq):
            self.for_focus(it, s, fr)
            return
        for x in self.iterate(it):
            self.assign(s.target, x, fr)
            try:
                self.exec_block(s.body, fr)
            except Brk:
                return
            except Cont:
                pass
        self.exec_block(s.orelse, fr)

    def for_focus(self, seq, s, fr):
        names = getattr(s, "_names", None)
        if names is None:
            names = s._names = assigned_names(s.body) - set_when_left(s.body) | target_names(s.target)
        saved = self.ctx.in_generic
        before = dict(self.ctx.protected)
        self.protect(fr)
        try:
            self.for_focus_(seq, s, fr, names, saved)
        finally:
            self.ctx.protected = before

    def segment_empty(self, x):
        h = self.hooks.get("segment_empty")
        return h(x) if h is not None else self.ctx.choose(2, "segment empty") == 1

    def for_focus_(self, seq, s, fr, names, saved):
        ls = self.hooks.get("loop_state")
        if ls is not None:
            ls.enter()
        for generic, x in seq.take():
            if generic and self.segment_empty(x):
                continue
            for n in names:
                fr.locals[n] = POISON
            if ls is not None:
                # attributes with an invariant: arbitrary before, checked after an iteration
                ls.begin()
            self.assign(s.target, x, fr)
            self.ctx.in_generic = saved or generic
            try:
                self.exec_block(s.body, fr)
            except Brk:
                if generic:
                    raise Unsupported("break out of an arbitrary sequence")
                if ls is not None:
                    raise Unsupported("break out of a loop with invariants")
                return
            except Cont:
                pass
            finally:
                self.ctx.in_generic = saved
            if ls is not None:
                ls.end()
                ls.begin()
        for n in names:
            fr.locals[n] = POISON
        self.exec_block(s.orelse, fr)

    # -- names ----------------------------------------------------------
    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.cls_name:
            return "_" + fr.cls_name.lstrip("_") + name
        return name

    def store_name(self, n, v, fr):
        if n in fr.globalnames:
            raise Unsupported("assignment to a global")
        if n in fr.nonlocals:
            c = fr.closure
            while isinstance(c, Frame):
                if n in c.locals:
                    c.locals[n] = v
                    return
                c = c.closure
            raise Unsupported("nonlocal")
        fr.locals[n] = v

    def load_name(self, n, fr):
        n = self.mangle(n, fr)
        c = fr
        while isinstance(c, Frame):
            if n in c.locals:
                v = c.locals[n]
                if v is POISON:
                    raise Unsupported(f"local {n} carried around a loop over an arbitrary sequence")
                return v
            nxt = c.closure
            if isinstance(nxt, dict):
                if n in nxt:
                    return nxt[n]
                break
            c = nxt
        if n in fr.globals:
            return fr.globals[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise NameError(n)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(self.mangle(t.id, fr), v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise ValueError("not enough values to unpack")
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, vals[i:len(vals) - after], fr)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, fr)
                return
            if len(vals) != len(t.elts):
                raise ValueError("wrong number of values to unpack")
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target")

    # -- expressions ----------------------------------------------------
    def eval(self, e, fr):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def ex_Constant(self, e, fr):
        return e.value

    def ex_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def ex_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), self.mangle(e.attr, fr))

    def ex_Tuple(self, e, fr):
        return tuple(self.elements(e.elts, fr))

    def ex_List(self, e, fr):
        vals = self.elements(e.elts, fr)
        if not vals and self.list_factory is not None:
            return self.list_factory()
        return vals

    def ex_Set(self, e, fr):
        vals = self.elements(e.elts, fr)
        if any(isinstance(v, Sym) for v in vals):
            return vals
        return set(vals)

    def elements(self, elts, fr, stars=False):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                if stars and isinstance(v, Model):
                    v = self.focus(v)
                if stars and isinstance(v, FocusSeq) and any(g for g, _ in v.elems):
                    out.append(Star(v.take()))
                    continue
                out.extend(self.iterate(v))
            else:
                out.append(self.eval(x, fr))
        return out

    def ex_Dict(self, e, fr):
        pairs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, fr)
                pairs.extend(d.items())
            else:
                pairs.append((self.eval(k, fr), self.eval(v, fr)))
        if not pairs and self.hooks.get("dict_factory"):
            return self.hooks["dict_factory"]()
        if any(isinstance(k, Sym) or (isinstance(k, tuple) and has_sym(k)) for k, _ in pairs):
            return FDict(pairs)
        return dict(pairs)

    def ex_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def ex_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        if self.hooks.get("merge_bools"):
            return self.bool_op(e.values, isand, fr)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != isand:
                return v if not isinstance(v, SBool) else t
        return v

    def bool_op(self, values, isand, fr):
        """``and`` and ``or`` without a case split where the operands left have
        no effects: they are evaluated even where they would not be."""
        join = z3.And if isand else z3.Or
        acc = []  # operands so far, symbolic
        for i, x in enumerate(values):
            last = i == len(values) - 1
            if acc and not plain(x):
                if self.ctx.branch(join(*acc)) != isand:
                    return not isand
                acc = []
            if acc:
                self.speculating += 1
                try:
                    v = self.eval(x, fr)
                except PathEnd:
                    raise
                except (Unsupported, Exception):  # noqa: BLE001
                    v = self
                finally:
                    self.speculating -= 1
                if v is self or not isinstance(v, (bool, SBool)):
                    if self.ctx.branch(join(*acc)) != isand:
                        return not isand
                    acc = []
                    v = self.eval(x, fr)
            else:
                v = self.eval(x, fr)
            if isinstance(v, SBool):
                acc.append(v.e)
            elif isinstance(v, bool) and acc:
                if v != isand:
                    return v
            elif last:
                return v
            else:
                t = self.truth(v)
                if t != isand:
                    return v
        if acc:
            return SBool(z3.simplify(join(*acc)))
        return isand

    def ex_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return SBool(z3.Not(v.e))
            return not self.truth(v)
        if isinstance(v, (SInt, SBool)):
            if isinstance(e.op, ast.USub):
                return SInt(-zi(v))
            if isinstance(e.op, ast.UAdd):
                return SInt(zi(v))
        if isinstance(v, Sym):
            raise Unsupported("unary operator")
        if isinstance(v, Model):
            return v.sym_unop(type(e.op).__name__)
        return {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)](v)

    def ex_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def ex_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def ex_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            res = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                return res
            if not self.truth(res):
                return False
            left = right
        return res

    def ex_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            selfname = (fr.fn and Source.node(fr.fn).args.args[0].arg) if not isinstance(fr.fn, IFunc) else None
            if fr.defcls is None or selfname is None:
                raise Unsupported("super()")
            return super(fr.defcls, fr.locals[selfname])
        f = self.eval(e.func, fr)
        args = self.elements(e.args, fr, self.key(f) in self.models)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if isinstance(d, Model) and not isinstance(d, FDict):
                    if self.key(f) in self.models or hasattr(d, "star_key"):
                        kwargs[d.star_key] = d
                        continue
                    raise Unsupported("** of a model")
                for kk, vv in d.items():
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        self.stack[-1] = (self.stack[-1][0], e)
        return self.call_(f, args, kwargs)

    def ex_Lambda(self, e, fr):
        return IFunc(
            e, fr, tuple(self.eval(d, fr) for d in e.args.defaults),
            {a.arg: self.eval(d, fr) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None}, "<lambda>",
        )

    def ex_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.eval(v.value, fr)
            spec = self.eval(v.format_spec, fr) if v.format_spec is not None else ""
            if isinstance(x, (Sym, Model)):
                if isinstance(x, SStr) and not spec and v.conversion == -1:
                    parts.append(x)
                    continue
                h = self.hooks.get("format")
                if h is not None and v.conversion == -1:
                    r = h(x, spec)
                    if r is not None:
                        parts.append(r)
                        continue
                if isinstance(x, SInt) and spec in ("", "d") and v.conversion == -1:
                    parts.append(SStr(z3.IntToStr(x.e)))
                    continue
                return Opaque("text", (str,), True)
            if v.conversion == ord("r"):
                x = repr(x)
            elif v.conversion == ord("s"):
                x = str(x)
            parts.append(format(x, spec))
        out = ""
        for p in parts:
            out = self.binop(ast.Add(), out, p)
        return out

    def ex_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval(e.slice, fr))

    def ex_Slice(self, e, fr):
        return slice(*[self.eval(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def ex_Starred(self, e, fr):
        raise Unsupported("starred")

    def ex_Yield(self, e, fr):
        if self.hooks.get("yield"):
            self.hooks["yield"]()
        fr.locals["__yield__"].append(self.eval(e.value, fr) if e.value is not None else None)

    def ex_YieldFrom(self, e, fr):
        v, out = self.focus(self.eval(e.value, fr)), fr.locals["__yield__"]
        if isinstance(out, FocusSeq):
            out.extend(v)
        else:
            out.extend(self.iterate(v))

    # comprehensions
    def comp(self, e, fr, emit):
        sub = Frame(fr.globals, fr, fr.fn, fr.cls_name, fr.defcls)

        def rec(i):
            if i == len(e.generators):
                emit(sub)
                return
            g = e.generators[i]
            it = self.focus(self.eval(g.iter, sub if i else fr))
            if isinstance(it, FocusSeq):
                saved = self.ctx.in_generic
                for generic, x in it.take():
                    if generic and self.segment_empty(x):
                        continue
                    self.assign(g.target, x, sub)
                    self.ctx.in_generic = saved or generic
                    try:
                        if all(self.truth(self.eval(c, sub)) for c in g.ifs):
                            rec(i + 1)
                    finally:
                        self.ctx.in_generic = saved
                return
            for x in self.iterate(it):
                self.assign(g.target, x, sub)
                if all(self.truth(self.eval(c, sub)) for c in g.ifs):
                    rec(i + 1)

        rec(0)

    def ex_ListComp(self, e, fr):
        if len(e.generators) == 1:
            first = self.focus(self.eval(e.generators[0].iter, fr))
            if isinstance(first, FocusSeq):
                return self.focus_comp(e, fr, first)
            out = []
            self.comp_over(e, fr, first, lambda sub: out.append(self.eval(e.elt, sub)))
            return out
        out = []
        self.comp(e, fr, lambda sub: out.append(self.eval(e.elt, sub)))
        return out

    def focus_comp(self, e, fr, first):
        acc, pairs = FocusSeq([]), []

        def emit(sub, x):
            v = self.eval(e.elt, sub)
            acc.append(v)
            pairs.append((x, v))

        self.comp_over(e, fr, first, emit, True)
        if not e.generators[0].ifs:
            acc.made_from(pairs)
        return acc

    def comp_over(self, e, fr, it, emit, which=False):
        sub = Frame(fr.globals, fr, fr.fn, fr.cls_name, fr.defcls)
        g = e.generators[0]
        saved = self.ctx.in_generic
        elems = it.take() if isinstance(it, FocusSeq) else None
        for item in list(elems) if elems is not None else self.iterate(it):
            generic, x = item if elems is not None else (False, item)
            if generic and self.segment_empty(x):
                continue
            self.assign(g.target, x, sub)
            self.ctx.in_generic = saved or generic
            try:
                if all(self.truth(self.eval(c, sub)) for c in g.ifs):
                    emit(sub, x) if which else emit(sub)
            finally:
                self.ctx.in_generic = saved

    def ex_SetComp(self, e, fr):
        if len(e.generators) == 1:
            first = self.focus(self.eval(e.generators[0].iter, fr))
            if isinstance(first, FocusSeq):
                r = self.focus_comp(e, fr, first)
                return FocusSeq(r.elems, set)
        out = []
        self.comp(e, fr, lambda sub: out.append(self.eval(e.elt, sub)))
        if any(isinstance(v, Sym) for v in out):
            return out
        return set(out)

    def ex_DictComp(self, e, fr):
        if len(e.generators) == 1:
            first = self.focus(self.eval(e.generators[0].iter, fr))
            if isinstance(first, FocusSeq):
                d = FocusDict()
                self.comp_over(e, fr, first, lambda sub: d.sym_setitem(self.eval(e.key, sub), self.eval(e.value, sub)))
                return d
            out = []
            self.comp_over(e, fr, first, lambda sub: out.append((self.eval(e.key, sub), self.eval(e.value, sub))))
            if any(isinstance(k, Sym) for k, _ in out):
                return FDict(out)
            return dict(out)
        out = []
        self.comp(e, fr, lambda sub: out.append((self.eval(e.key, sub), self.eval(e.value, sub))))
        if any(isinstance(k, Sym) for k, _ in out):
            return FDict(out)
        return dict(out)

    def ex_GeneratorExp(self, e, fr):
        if len(e.generators) == 1:
            first = self.focus(self.eval(e.generators[0].iter, fr))
            if isinstance(first, FocusSeq):
                return self.focus_comp(e, fr, first)
            return self.lazy_gen(e, fr, first)
        out = []
        self.comp(e, fr, lambda sub: out.append(self.eval(e.elt, sub)))
        return iter(out)

    def lazy_gen(self, e, fr, it):
        sub = Frame(fr.globals, fr, fr.fn, fr.cls_name, fr.defcls)
        g = e.generators[0]
        for x in self.iterate(it):
            self.assign(g.target, x, sub)
            if all(self.truth(self.eval(c, sub)) for c in g.ifs):
                yield self.eval(e.elt, sub)

    # -- operations -----------------------------------------------------
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return self.ctx.branch(v.e)
        if isinstance(v, SInt):
            return self.ctx.branch(v.e != 0)
        if isinstance(v, SStr):
            return self.ctx.branch(z3.Length(v.e) > 0)
        if isinstance(v, Model):
            r = v.sym_bool()
            return r if isinstance(r, bool) else self.truth(r)
        if is_repo_class(type(v)):
            if hasattr(type(v), "__bool__") or hasattr(type(v), "__len__"):
                raise Unsupported("truth of a repository object")
            return True
        return bool(v)

    def iterate(self, v):
        if isinstance(v, FocusSeq) and not any(g for g, _ in v.elems) and v.on_take is None:
            return iter(v.plain("iteration"))
        if isinstance(v, FocusSeq):
            raise Unsupported("iteration of an arbitrary sequence outside of a for statement")
        if isinstance(v, Model):
            m = getattr(v, "sym_iter", None)
            if m is None:
                raise Unsupported(f"iteration over {type(v).__name__}")
            return m()
        if isinstance(v, Sym):
            raise Unsupported("iteration over a symbolic value")
        if is_repo_class(type(v)):
            raise Unsupported("iteration over a repository object")
        return iter(v)

    def getattr(self, o, n):
        if isinstance(o, Sym):
            if n == "__class__":
                return o.pytype
            return BoundSym(o, n)
        if isinstance(o, Model):
            if n == "__class__":
                return o.sym_type()
            g = getattr(o, "sym_getattr", None)
            if g is not None:
                return g(n)
            try:
                return getattr(o, n)
            except AttributeError:
                raise Unsupported(f"attribute {n} of {type(o).__name__} {o!r}") from None
        c = type(o)
        if is_repo_class(c):
            d = inspect.getattr_static(c, n, None)
            if isinstance(d, property) and is_repo_function(d.fget):
                return self.call_repo(d.fget, [o], {})
            if n in getattr(o, "__dict__", {}):
                return o.__dict__[n]
            if isinstance(d, types.FunctionType):
                return types.MethodType(d, o)
        return getattr(o, n)

    def setattr(self, o, n, v):
        ls = self.hooks.get("loop_state")
        if ls is None or not ls.allows(o, n):
            self.guard(o)
        if isinstance(o, Model):
            s = getattr(o, "sym_setattr", None)
            if s is None:
                raise Unsupported(f"attribute assignment on {o!r}")
            s(n, v)
            return
        c = type(o)
        if is_repo_class(c):
            d = inspect.getattr_static(c, n, None)
            if isinstance(d, property):
                if d.fset is None:
                    raise AttributeError(n)
                h = self.hooks.get("setprop")
                if h is not None and h(o, n, v):
                    return
                if is_repo_function(d.fset):
                    self.call_repo(d.fset, [o, v], {})
                    return
            object.__setattr__(o, n, v)
            return
        if c.__module__ == "collections.abc" and any(x is o for x in self.ctx.created):
            object.__setattr__(o, n, v)
            return
        raise Unsupported(f"attribute assignment on {c.__name__}")

    def getitem(self, o, i):
        if isinstance(o, Model):
            m = getattr(o, "sym_getitem", None)
            if m is None:
                if isinstance(o, FDict):
                    for k, v in reversed(o.pairs):
                        if self.truth(self.eq(k, i)):
                            return v
                    raise KeyError(self.describe(i))
                raise Unsupported(f"index of {o!r}")
            return m(i)
        if isinstance(o, SStr):
            return self.str_index(o, i)
        if isinstance(i, Lift) and isinstance(o, (dict, list, tuple, str)):
            return i.sym_index_of(o)
        if isinstance(o, dict):
            if isinstance(i, Sym):
                k = self.find_key(o, i)
                if k is None:
                    raise KeyError(self.describe(i))
                return o[k]
            return o[i]
        if isinstance(i, SInt) and isinstance(o, (list, tuple)):
            n = len(o)
            for k in range(n):
                if self.ctx.branch(z3.Or(i.e == k, i.e == k - n)):
                    return o[k]
            raise IndexError("index out of range")
        if isinstance(i, Sym) or (isinstance(i, slice) and has_sym([i.start, i.stop, i.step])):
            raise Unsupported("symbolic index")
        if isinstance(o, type) or getattr(o, "__module__", "") == "typing":
            return o
        if is_repo_class(type(o)):
            return self.call(self.getattr(o, "__getitem__"), i)
        return o[i]

    def str_index(self, o, i):
        n = z3.Length(o.e)
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("string step")

            def norm(x, d):
                if x is None:
                    return d
                x = zi(x)
                x = z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x), z3.If(x > n, n, x))
                return z3.simplify(x)

            a, b = norm(i.start, z3.IntVal(0)), norm(i.stop, n)
            return SStr(z3.simplify(z3.SubString(o.e, a, z3.If(b > a, b - a, z3.IntVal(0)))))
        k = zi(i)
        if not self.ctx.branch(z3.And(k < n, k >= -n)):
            raise IndexError("string index out of range")
        return SStr(z3.simplify(z3.SubString(o.e, z3.If(k < 0, n + k, k), 1)))

    def setitem(self, o, i, v):
        if is_repo_class(type(o)) and inspect.getattr_static(type(o), "__setitem__", None) is not None:
            self.call(self.getattr(o, "__setitem__"), i, v)
            return
        self.guard(o)
        if isinstance(o, Model):
            m = getattr(o, "sym_setitem", None)
            if m is None:
                if isinstance(o, FDict):
                    o.pairs = [(k, x) for k, x in o.pairs if not self.truth(self.eq(k, i))] + [(i, v)]
                    return
                raise Unsupported(f"item assignment on {o!r}")
            m(i, v)
            return
        if isinstance(o, (list, dict)) and not isinstance(i, Sym) and not (isinstance(o, dict) and has_sym(i) and not isinstance(i, Model)):
            o[i] = v
            return
        raise Unsupported(f"item assignment on {type(o).__name__}")

    def delitem(self, o, i):
        if is_repo_class(type(o)) and inspect.getattr_static(type(o), "__delitem__", None) is not None:
            self.call(self.getattr(o, "__delitem__"), i)
            return
        self.guard(o)
        if isinstance(o, Model):
            m = getattr(o, "sym_delitem", None)
            if m is None:
                raise Unsupported(f"item deletion on {o!r}")
            m(i)
            return
        if isinstance(o, dict) and isinstance(i, Sym):
            k = self.find_key(o, i)
            if k is None:
                raise KeyError(self.describe(i))
            del o[k]
            return
        if isinstance(o, (list, dict)):
            del o[i]
            return
        raise Unsupported(f"item deletion on {type(o).__name__}")

    def eq(self, a, b):
        if a is b and not isinstance(a, float):
            return True
        if isinstance(a, Model):
            r = a.sym_eq(b)
            if r is not NotImplemented:
                return r
        if isinstance(b, Model):
            r = b.sym_eq(a)
            return False if r is NotImplemented else r
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
                return SBool(zs(a) == zs(b))
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return SBool(zbv(a) == zbv(b))
            if isinstance(a, (SInt, SBool, int)) and isinstance(b, (SInt, SBool, int)):
                return SBool(zi(a) == zi(b))
            if isinstance(a, (SInt, SBool)) and isinstance(b, float) or isinstance(b, (SInt, SBool)) and isinstance(a, float):
                raise Unsupported("float comparison")
            return False
        if isinstance(a, (tuple, list)) and type(a) is type(b) and (has_sym(a) or has_sym(b)):
            if len(a) != len(b):
                return False
            conj = []
            for x, y in zip(a, b):
                r = self.eq(x, y)
                if r is False:
                    return False
                if r is not True:
                    conj.append(r.e)
            return SBool(z3.And(*conj)) if conj else True
        if has_sym(a) or has_sym(b):
            if type(a) is not type(b):
                return False
            if isinstance(a, (set, frozenset)) and all(x is None or getattr(x, "by_identity", False) for x in [*a, *b]):
                return a == b
            raise Unsupported("comparison of containers of symbolic values")
        return a == b

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            if isinstance(a, Model) and hasattr(a, "sym_ne"):
                return a.sym_ne(b)
            return self.not_(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.not_(self.contains(b, a))
        if isinstance(a, Model) or isinstance(b, Model):
            m = a if isinstance(a, Model) else b
            f = getattr(m, "sym_compare", None)
            if f is None:
                raise Unsupported(f"comparison of {m!r}")
            return f(type(op).__name__, a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            num = (SInt, SBool, int)
            if isinstance(a, num) and isinstance(b, num):
                x, y = zi(a), zi(b)
                return SBool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
            if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
                raise Unsupported("string ordering")
            if isinstance(a, (SStr, str)) != isinstance(b, (SStr, str)):
                raise TypeError("'<' not supported")
            raise Unsupported("comparison")
        return {
            ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
        }[type(op)]()

    def not_(self, v):
        if isinstance(v, SBool):
            return SBool(z3.Not(v.e))
        return not self.truth(v)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, SBool) and isinstance(b, bool):
            return SBool(a.e == z3.BoolVal(b))
        if isinstance(b, SBool) and isinstance(a, bool):
            return SBool(b.e == z3.BoolVal(a))
        if isinstance(a, Model) and hasattr(a, "sym_is"):
            return a.sym_is(b)
        if isinstance(b, Model) and hasattr(b, "sym_is"):
            return b.sym_is(a)
        return False

    def contains(self, c, x):
        if isinstance(c, Model):
            m = getattr(c, "sym_contains", None)
            if m is not None:
                return m(x)
            if isinstance(c, FDict):
                return any(self.truth(self.eq(k, x)) for k in c.keys())
            raise Unsupported(f"membership in {c!r}")
        if isinstance(x, Lift) and isinstance(c, (dict, list, tuple, set, frozenset, str)) and not has_sym(c):
            return x.sym_in(c)
        if isinstance(c, SStr) or (isinstance(c, str) and isinstance(x, SStr)):
            return SBool(z3.Contains(zs(c), zs(x)))
        if isinstance(x, Sym) or (isinstance(x, Model) and isinstance(c, (list, tuple))) or (
            isinstance(c, (list, tuple)) and has_sym(c)
        ) or (isinstance(x, tuple) and has_sym(x)):
            if isinstance(c, str):
                raise TypeError("'in <string>' requires string as left operand")
            disj = []
            for y in c:
                r = self.eq(x, y)
                if r is True:
                    return True
                if r is False:
                    continue
                if isinstance(r, bool):
                    continue
                disj.append(r.e)
            return SBool(z3.Or(*disj)) if disj else False
        if is_repo_class(type(c)):
            return self.call(self.getattr(c, "__contains__"), x)
        return x in c

    def binop(self, op, a, b, inplace=False):
        if isinstance(a, Model) or isinstance(b, Model):
            for m, o, refl in ((a, b, False), (b, a, True)):
                f = getattr(m, "sym_binop", None) if isinstance(m, Model) else None
                if f is not None:
                    r = f(type(op).__name__, o, refl)
                    if r is not NotImplemented:
                        return r
            raise Unsupported(f"operator {type(op).__name__} on {a!r}, {b!r}")
        if isinstance(op, ast.Mod) and isinstance(a, str) and has_sym(b) and self.hooks.get("mod") is not None:
            r = self.hooks["mod"](a, b)
            if r is not None:
                return r
        if isinstance(a, Sym) or isinstance(b, Sym):
            t = type(op)
            if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)) and t is ast.Add:
                return SStr(z3.simplify(z3.Concat(zs(a), zs(b)))) if not (isinstance(a, str) and a == "") else b
            num = (SInt, SBool, int)
            if isinstance(a, num) and isinstance(b, num):
                if t in (ast.BitAnd, ast.BitOr, ast.BitXor) and isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                    f = {ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[t]
                    return SBool(f(zbv(a), zbv(b)))
                x, y = zi(a), zi(b)
                if t is ast.Add:
                    return SInt(x + y)
                if t is ast.Sub:
                    return SInt(x - y)
                if t is ast.Mult:
                    return SInt(z3.simplify(x * y))
                if t in (ast.FloorDiv, ast.Mod):
                    if self.ctx.branch(y == 0):
                        raise ZeroDivisionError
                    if not self.ctx.must(y > 0):
                        raise Unsupported("division by a possibly negative number")
                    return SInt(x / y) if t is ast.FloorDiv else SInt(x % y)
            if t is ast.Mult and self.hooks.get("repeat") is not None:
                if isinstance(a, str) and isinstance(b, SInt):
                    return self.hooks["repeat"](a, b)
                if isinstance(b, str) and isinstance(a, SInt):
                    return self.hooks["repeat"](b, a)
            raise Unsupported(f"operator {t.__name__}")
        if isinstance(op, ast.Mod) and isinstance(a, str) and has_sym(b):
            return Opaque("text", (str,), True)
        f = _BINOPS[type(op)]
        if inplace and isinstance(a, list) and isinstance(op, ast.Add):
            self.guard(a)
            a.extend(self.iterate(b))
            return a
        return f(a, b)

    # -- methods of symbolic values -------------------------------------
    def sym_method(self, o, name, args, kwargs):
        if isinstance(o, SStr):
            if name in ("startswith", "endswith") and len(args) == 1:
                alts = args[0] if isinstance(args[0], tuple) else (args[0],)
                f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
                for x in alts:
                    if not isinstance(x, (str, SStr)):
                        raise TypeError(f"{name} first arg must be str")
                return SBool(z3.Or(*[f(zs(x), o.e) for x in alts]))
            if name == "replace" and len(args) == 2:
                h = self.hooks.get("str.replace")
                if h is not None:
                    return h(o, *args)
            if name == "encode":
                h = self.hooks.get("str.encode")
                if h is not None:
                    return h(o, *args, **kwargs)
            if name == "lower" and not args:
                h = self.hooks.get("str.lower")
                if h is not None:
                    return h(o)
        h = self.hooks.get(f"{type(o).__name__}.{name}")
        if h is not None:
            return h(o, *args, **kwargs)
        if not hasattr(o.pytype, name):
            raise AttributeError(f"'{o.pytype.__name__}' object has no attribute '{name}'")
        raise Unsupported(f"method {name} of a symbolic {o.pytype.__name__}")

    # -- builtins -------------------------------------------------------
    def bi_isinstance(self, o, t):
        ts = flatten_types(t)
        if isinstance(o, Sym):
            return any(issubclass(o.pytype, x) for x in ts)
        if isinstance(o, Model):
            r = False
            for x in ts:
                v = o.sym_isinstance(x)
                if v is True:
                    return True
                if v is not False:
                    if self.truth(v):
                        return True
            return r
        for x in ts:
            if isinstance(x, Model):
                if self.truth(x.sym_instancecheck(o)):
                    return True
            elif isinstance(o, x):
                return True
        return False

    def bi_issubclass(self, c, t):
        if isinstance(c, Model):
            return c.sym_issubclass(t)
        return issubclass(c, t)

    def bi_type(self, *a):
        if len(a) != 1:
            raise Unsupported("type() with three arguments")
        o = a[0]
        if isinstance(o, Sym):
            return o.pytype
        if isinstance(o, Model):
            return o.sym_type()
        return type(o)

    def bi_len(self, o):
        if isinstance(o, SStr):
            return SInt(z3.Length(o.e))
        if isinstance(o, Sym):
            raise TypeError("object has no len()")
        if isinstance(o, Model):
            m = getattr(o, "sym_len", None)
            if m is None:
                if isinstance(o, FDict):
                    return len(o.pairs)
                raise Unsupported(f"len of {o!r}")
            return m()
        if is_repo_class(type(o)):
            return self.call(self.getattr(o, "__len__"))
        return len(o)

    def bi_bool(self, o=False):
        if isinstance(o, SBool):
            return o
        return self.truth(o)

    def bi_int(self, o=0, *a, **k):
        if isinstance(o, (SInt, SBool)) and not a:
            return SInt(zi(o))
        if isinstance(o, SStr) and not a and not k:
            h = self.hooks.get("int")
            if h is not None:
                return h(o)
            raise Unsupported("int of a symbolic string")
        if isinstance(o, Model):
            m = getattr(o, "sym_int", None)
            if m is None:
                raise Unsupported(f"int of {o!r}")
            return m()
        return int(o, *a, **k)

    def bi_float(self, o=0.0):
        if isinstance(o, (Sym, Model)):
            m = getattr(o, "sym_float", None)
            if m is None:
                raise Unsupported(f"float of {o!r}")
            return m()
        return float(o)

    def bi_str(self, o="", *a, **k):
        if isinstance(o, SStr) and not a and not k:
            return o
        if isinstance(o, SInt):
            return SStr(z3.IntToStr(o.e))
        if isinstance(o, (Sym, Model)):
            m = getattr(o, "sym_str", None)
            if m is None:
                return Opaque(f"str of {o!r}", (str,), True)
            return m(*a, **k)
        if has_sym(o):
            return Opaque("text", (str,), True)
        return str(o, *a, **k)

    def bi_repr(self, o):
        if has_sym(o):
            return Opaque("text", (str,), True)
        return repr(o)

    def bi_bytes(self, *a, **k):
        if a and isinstance(a[0], (Sym, Model)):
            m = getattr(a[0], "sym_bytes", None)
            if m is None:
                raise Unsupported(f"bytes of {a[0]!r}")
            return m(*a[1:], **k)
        return bytes(*a, **k)

    def bi_tuple(self, o=()):
        if isinstance(o, FocusSeq):
            return FocusSeq(o.take(), tuple)
        if isinstance(o, Model) and hasattr(o, "sym_tuple"):
            return o.sym_tuple()
        return tuple(self.iterate(o))

    def bi_list(self, o=()):
        if isinstance(o, FocusSeq):
            return FocusSeq(o.take(), list)
        if isinstance(o, Model) and hasattr(o, "sym_list"):
            return o.sym_list()
        if isinstance(o, tuple) and not o and self.list_factory is not None:
            return self.list_factory()
        return list(self.iterate(o))

    def bi_set(self, o=()):
        if isinstance(o, tuple) and not o and self.hooks.get("set_factory"):
            return self.hooks["set_factory"]()
        if isinstance(o, Model) and hasattr(o, "sym_set"):
            return o.sym_set()
        v = list(self.iterate(o))
        if any(isinstance(x, Sym) for x in v):
            return v
        return set(v)

    def bi_frozenset(self, o=()):
        if isinstance(o, Model) and hasattr(o, "sym_set"):
            return o.sym_set()
        v = list(self.iterate(o))
        if any(isinstance(x, Sym) for x in v):
            raise Unsupported("frozenset of symbolic values")
        return frozenset(v)

    def bi_dict(self, *a, **k):
        if not a and not k and self.hooks.get("dict_factory"):
            return self.hooks["dict_factory"]()
        if a and isinstance(a[0], Model):
            m = getattr(a[0], "sym_dict", None)
            if m is None:
                if isinstance(a[0], FDict) and not k:
                    return FDict(a[0].pairs)
                if isinstance(a[0], FocusSeq) and not k:
                    d = (self.hooks.get("dict_factory") or FocusDict)()
                    if isinstance(d, FocusDict):
                        d.update(a[0])
                        return d
                raise Unsupported("dict of a model")
            return m(**k)
        if a:
            src = a[0]
            if isinstance(src, dict):
                return dict(src, **k)
            pairs = [tuple(self.iterate(p)) for p in self.iterate(src)]
            if any(isinstance(x, Sym) for x, _ in pairs):
                return FDict(pairs + list(k.items()))
            return dict(pairs, **k)
        return dict(**k)

    def bi_all(self, it):
        if isinstance(it, FocusSeq):
            vs = it.values_list()
            if self.hooks.get("merge_bools") and vs and all(isinstance(v, (bool, SBool)) for v in vs):
                return SBool(z3.simplify(z3.And(*[zb(v) for v in vs])))
            return all(self.truth(v) for v in vs)
        if isinstance(it, Model) and hasattr(it, "sym_all"):
            return it.sym_all()
        for v in self.iterate(it):
            if not self.truth(v):
                return False
        return True

    def bi_any(self, it):
        if isinstance(it, FocusSeq):
            vs = it.values_list()
            if self.hooks.get("merge_bools") and vs and all(isinstance(v, (bool, SBool)) for v in vs):
                return SBool(z3.simplify(z3.Or(*[zb(v) for v in vs])))
            return any(self.truth(v) for v in vs)
        if isinstance(it, Model) and hasattr(it, "sym_any"):
            return it.sym_any()
        for v in self.iterate(it):
            if self.truth(v):
                return True
        return False

    def bi_enumerate(self, it, start=0):
        it = self.focus(it)
        if isinstance(it, FocusSeq) and any(g for g, _ in it.elems):
            if start != 0:
                raise Unsupported("enumerate with a start")
            return FocusSeq([(g, (Idx(x), x)) for g, x in it.take()])
        if isinstance(it, FocusSeq):
            return enumerate([x for _, x in it.take()], start)
        return enumerate(self.iterate(it), start)

    def bi_zip(self, *its, **k):
        if its and isinstance(its[0], FocusSeq) and any(g for g, _ in its[0].elems) and all(isinstance(x, FocusSeq) for x in its):
            first = its[0] if its[0].images is None or len(its) < 2 else its[1]
            return FocusSeq([(g, tuple(s.image_of(x) for s in its)) for g, x in first.take()])
        return zip(*[self.iterate(i) for i in its], **k)

    def bi_reversed(self, o):
        if isinstance(o, (Sym, Model)):
            raise Unsupported("reversed")
        return reversed(o)

    def bi_map(self, f, *its):
        if len(its) == 1 and isinstance(its[0], FocusSeq):
            return self.focus_map(its[0], lambda x, out: out.append(self.call(f, x)))
        return [self.call(f, *xs) for xs in zip(*[self.iterate(i) for i in its])]

    def focus_map(self, it, body):
        """The elements ``body`` appends for each element of ``it``."""
        out = FocusSeq([])
        saved = self.ctx.in_generic
        for generic, x in it.take():
            if generic and self.segment_empty(x):
                continue
            self.ctx.in_generic = saved or generic
            try:
                body(x, out)
            finally:
                self.ctx.in_generic = saved
        return out

    def bi_filter(self, f, it):
        if isinstance(it, FocusSeq):
            return self.focus_map(it, lambda x, out: out.append(x) if self.truth(x if f is None else self.call(f, x)) else None)
        return [x for x in self.iterate(it) if self.truth(x if f is None else self.call(f, x))]

    def bi_iter(self, o):
        if isinstance(o, FocusSeq):
            return o
        if is_repo_class(type(o)):
            return self.focus(o)
        return self.iterate(o)

    def bi_next(self, it, *d):
        if isinstance(it, (Sym, Model)):
            m = getattr(it, "sym_next", None)
            if m is None:
                raise Unsupported("next")
            return m(*d)
        return next(it, *d)

    def bi_range(self, *a):
        if any(isinstance(x, Sym) for x in a):
            raise Unsupported("range over a symbolic number")
        return range(*a)

    def _minmax(self, args, k, gt):
        vals = list(self.iterate(args[0])) if len(args) == 1 else list(args)
        if not has_sym(vals):
            return (max if gt else min)(vals, **k)
        r = vals[0]
        for v in vals[1:]:
            x, y = zi(r), zi(v)
            r = SInt(z3.If((x >= y) if gt else (x <= y), x, y))
        return r

    def bi_max(self, *a, **k):
        return self._minmax(a, k, True)

    def bi_min(self, *a, **k):
        return self._minmax(a, k, False)

    def bi_sum(self, it, start=0):
        r = start
        for v in self.iterate(it):
            r = self.binop(ast.Add(), r, v)
        return r

    def bi_sorted(self, it, **k):
        v = list(self.iterate(it))
        if any(isinstance(x, (Sym, Model)) for x in v):
            raise Unsupported("sorting of symbolic values")
        return sorted(v, **{a: (lambda x, f=b: self.call(f, x)) if a == "key" and b is not None else b for a, b in k.items()})

    def bi_hasattr(self, o, n):
        if isinstance(o, Sym):
            return hasattr(o.pytype, n)
        if isinstance(o, Model):
            m = getattr(o, "sym_hasattr", None)
            if m is None:
                raise Unsupported(f"hasattr of {o!r}")
            return m(n)
        return hasattr(o, n)

    def bi_getattr(self, o, n, *d):
        if isinstance(n, (Sym, Model)):
            raise Unsupported("getattr with a symbolic name")
        try:
            return self.getattr(o, n)
        except AttributeError:
            if d:
                return d[0]
            raise

    def bi_setattr(self, o, n, v):
        if isinstance(n, (Sym, Model)):
            raise Unsupported("setattr with a symbolic name")
        self.setattr(o, n, v)

    def bi_callable(self, o):
        if isinstance(o, Sym):
            return False
        if isinstance(o, IFunc):
            return True
        if isinstance(o, Model):
            m = getattr(o, "sym_callable", None)
            if m is None:
                raise Unsupported("callable")
            return m()
        return callable(o)

    def bi_id(self, o):
        raise Unsupported("id()")

    def bi_hash(self, o):
        if has_sym(o):
            raise Unsupported("hash()")
        return hash(o)

    def bi_abs(self, o):
        if isinstance(o, (SInt, SBool)):
            return SInt(z3.If(zi(o) < 0, -zi(o), zi(o)))
        if isinstance(o, (Sym, Model)):
            raise Unsupported("abs")
        return abs(o)

    def bi_print(self, *a, **k):
        return None


def zbv(v):
    return v.e if isinstance(v, SBool) else z3.BoolVal(v)


def collections_deque():
    import collections

    return collections.deque


def flatten_types(t):
    if isinstance(t, tuple):
        out = []
        for x in t:
            out.extend(flatten_types(x))
        return out
    if isinstance(t, types.UnionType):
        return list(t.__args__)
    if isinstance(t, FocusSeq):
        raise Unsupported("isinstance with an arbitrary tuple of types")
    return [t]


import operator as _op  # noqa: E402

_BINOPS = {
    ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.Div: _op.truediv, ast.FloorDiv: _op.floordiv, ast.Mod: _op.mod,
    ast.Pow: _op.pow, ast.LShift: _op.lshift, ast.RShift: _op.rshift, ast.BitAnd: _op.and_, ast.BitOr: _op.or_,
    ast.BitXor: _op.xor, ast.MatMult: _op.matmul,
}


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def set_when_left(body):
    """Locals that the body of a loop only sets to constants right before it
    leaves the loop: at its head they are what they were before it."""
    stores, safe = {}, {}
    for n in (m for b in body for m in ast.walk(b)):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            stores[n.id] = stores.get(n.id, 0) + 1
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            stores[n.name] = stores.get(n.name, 0) + 2
        elif isinstance(n, ast.ExceptHandler) and n.name:
            stores[n.name] = stores.get(n.name, 0) + 2
    lists, todo = [], [body]
    while todo:
        b = todo.pop()
        lists.append(b)
        for x in b:
            if isinstance(x, ast.If):
                todo += [x.body, x.orelse]
            elif isinstance(x, ast.With):
                todo.append(x.body)
            elif isinstance(x, ast.Try) and not x.finalbody:
                todo += [x.body, x.orelse] + [h.body for h in x.handlers]
    for b in lists:
        if not b or not isinstance(b[-1], (ast.Break, ast.Return)):
            continue
        if isinstance(b[-1], ast.Return) and not (b[-1].value is None or isinstance(b[-1].value, ast.Constant)):
            continue
        for x in reversed(b[:-1]):
            if not (isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)):
                break
            safe[x.targets[0].id] = safe.get(x.targets[0].id, 0) + 1
    return {n for n, k in safe.items() if stores[n] == k}


def assigned_names(body):
    """Locals a block may assign (not those of comprehensions and inner functions)."""
    out = set()
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        elif isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out |= target_names(m.target)
            continue
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return out
