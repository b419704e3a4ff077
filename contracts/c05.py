"""C05: contracts of MarshallerCollection.

Abstract state: three sequences of marshallers (builtin, plugin, user, each of
any length) and the order of the groups.  Lookup contract: the first element
of their concatenation that declares what is asked for.  It is proved for an
arbitrary question (the focus key): tables are tracked exactly for that key,
anything about other keys is arbitrary.  Histories: an operation on a
collection holding the user marshallers U leaves exactly the state a new
collection with the marshallers the operation should leave would have.
"""
import importlib
import inspect
import itertools
import pkgutil
import sys

from pyvc.engine import FocusSeq, Idx, Model, Opaque, PathEnd, Unsupported, current

TRUSTED = [
    "marshallers compare by identity and their declarations (types, python_type_strings, matlab_classes) do not change",
    "inspect.getmembers gives the builtin marshaller classes; importlib/pkgutil decide availability arbitrarily",
    "plugins.find_thirdparty_marshaller_plugins and the plugins themselves return any objects or raise",
]

KINDS = {"type": "types", "type_string": "python_type_strings", "matlab_class": "matlab_classes"}


class Name(Model):
    """A str that is the focus key, is not, or may be."""

    def __init__(self, label, key):
        self.label, self.key = label, key  # key: True, False or None (may be)
        self.b = None

    def __repr__(self):
        return f"<{self.label}>"

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_type(self):
        return str

    def sym_bool(self):
        return True

    def iskey(self):
        if self.key is None:
            if self.b is None:
                self.b = current().choose(2, f"{self.label} is the key") == 1
            return self.b
        return self.key

    def sym_eq(self, o):
        if self is o:
            return True
        if not isinstance(o, Name):
            raise Unsupported("comparison of a name")
        a, b = self.iskey(), o.iskey()
        if a or b:
            return a and b
        return current().choose(2, "other names equal") == 1


class Half(Model):
    """A part of the name of a class."""

    def __init__(self, cls, done):
        self.cls, self.done = cls, done

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_binop(self, op, o, refl):
        if op == "Add" and not refl:
            if self.done == "m" and o == ".":
                return Half(self.cls, "m.")
            if self.done == "m." and isinstance(o, Half) and o.cls is self.cls and o.done == "n":
                return self.cls.full
        if op == "Add" and refl and self.done == "n" and o == ".":
            return Half(self.cls, ".n")
        if op == "Add" and refl and isinstance(o, Half):
            return NotImplemented
        raise Unsupported("part of the name of a class")


class ClassTok(Model):
    def __init__(self, full):
        self.full = full

    def sym_isinstance(self, cls):
        return issubclass(type, cls)

    def sym_getattr(self, n):
        if n == "__module__":
            return Half(self, "m")
        if n in ("__name__", "__qualname__"):
            return Half(self, "n")
        raise Unsupported(f"attribute {n} of a type")


class Marsh(Model):
    """A marshaller; declares: 'no' (not the focus key), 'yes', 'any'."""

    def __init__(self, cm, label, declares):
        self.cm, self.label, self.declares = cm, label, declares
        self.decl = {}

    def __repr__(self):
        return f"<marshaller {self.label}>"

    def sym_isinstance(self, cls):
        from hdf5storage import Marshallers

        return cls is Marshallers.TypeMarshaller or cls is object

    def sym_getattr(self, n):
        if n in ("required_parent_modules", "required_modules"):
            if not self.cm.modules:
                return ()
            return FocusSeq([(True, Opaque(f"{n} of {self.label}", (str,), True))], tuple)
        if n in KINDS.values():
            if n not in self.decl:
                self.decl[n] = FocusSeq(self.declarations(n), tuple)
            return self.decl[n]
        raise Unsupported(f"attribute {n} of a marshaller")

    def declarations(self, n):
        mine = n == self.cm.attr

        def one(label, key):
            t = Name(f"{n} {label}", key)
            if n == "types" and self.cm.classes:
                t = ClassTok(t)
            return t

        if not mine:
            return [(False, one(self.label, None))] if self.declares == "yes" else []
        if self.declares == "yes":
            return [(True, one(f"{self.label} pre", False)), (False, one(f"{self.label} key", True)), (True, one(f"{self.label} post", None))]
        return [(True, one(self.label, False if self.declares == "no" else None))]


class KeyedDict(Model):
    """A dict known exactly for the focus key, arbitrary for all others."""

    def __init__(self, cm):
        self.cm, self.has, self.val = cm, False, None

    def sym_isinstance(self, cls):
        return issubclass(dict, cls)

    def iskey(self, k):
        if isinstance(k, Name):
            return k.iskey()
        if isinstance(k, (ClassTok, Half)):
            return False
        raise Unsupported("key of another kind")

    def sym_contains(self, k):
        if self.iskey(k):
            return self.has
        # the constructor does not depend on it (lookup procedures); operations may
        return self.cm.ctx.choose(2, "other key present") == 1 if self.cm.noise else False

    def sym_setitem(self, k, v):
        if self.iskey(k):
            self.has, self.val = True, v

    def sym_getitem(self, k):
        if self.iskey(k):
            if not self.has:
                raise KeyError("focus")
            return self.val
        raise Unsupported("entry of another key")

    def get(self, k, d=None):
        if self.iskey(k):
            return self.val if self.has else d
        raise Unsupported("entry of another key")

    def setdefault(self, k, d=None):
        if self.iskey(k):
            if not self.has:
                self.has, self.val = True, d
            return self.val
        return Opaque("entry of another key", (), True)

    def clear(self):
        self.has, self.val = False, None


class KeyedSet(KeyedDict):
    def sym_isinstance(self, cls):
        return issubclass(set, cls)

    def add(self, k):
        self.sym_setitem(k, None)


class Flags(Model):
    """A list with an entry for each element of an arbitrary sequence."""

    def __init__(self, default):
        self.default, self.m = default, {}

    def sym_setitem(self, i, v):
        if not isinstance(i, Idx):
            raise Unsupported("index of a flag")
        self.m[id(i.elem)] = v

    def sym_getitem(self, i):
        if not isinstance(i, Idx):
            raise Unsupported("index of a flag")
        return self.m.get(id(i.elem), self.default)


class Len(Model):
    def __init__(self, seq):
        self.seq = seq

    def sym_binop(self, op, o, refl):
        if op == "Mult" and isinstance(o, list) and len(o) == 1:
            return Flags(o[0])
        return NotImplemented


class Members(Model):
    def __init__(self, elems):
        self.elems = elems

    def sym_dict(self):
        return self

    def items(self):
        return FocusSeq(self.elems)

    def values(self):
        return FocusSeq([(g, v) for g, (_, v) in self.elems])


class Ctor(Model):
    def __init__(self, m):
        self.m = m

    def sym_call(self):
        return self.m


class Plugin(Model):
    def __init__(self, cm, seq):
        self.cm, self.seq = cm, seq

    def load(self):
        k = self.cm.ctx.choose(3, "plugin")
        if k == 2:
            raise RuntimeError("plugin does not load")
        return PluginFun(self.cm, self.seq, k == 0)


class PluginFun(Model):
    def __init__(self, cm, seq, ok):
        self.cm, self.seq, self.ok = cm, seq, ok

    def sym_callable(self):
        return self.ok

    def sym_call(self, *a):
        return self.seq


class CM:
    def __init__(self, ctx, kind):
        self.ctx, self.it, self.kind, self.attr = ctx, ctx.interp, kind, KINDS[kind]
        self.modules, self.classes, self.asked = False, False, False
        it = self.it
        self.empty, self.keep, self.noise = {}, [], True

        def empty(x):
            if isinstance(x, tuple):  # a builtin class; its marshaller may be missing later
                return False
            if isinstance(x, (Name, ClassTok)):  # no declarations: as if they were of other keys
                return False
            if not isinstance(x, Marsh):
                return ctx.choose(2, "segment empty") == 1
            if id(x) not in self.empty:
                self.keep.append(x)
                self.empty[id(x)] = ctx.choose(2, "segment empty") == 1
            return self.empty[id(x)]

        it.hooks["segment_empty"] = empty
        it.list_factory = lambda: FocusSeq([])
        it.hooks["dict_factory"] = lambda: KeyedDict(self)
        it.hooks["set_factory"] = lambda: KeyedSet(self)
        it.hooks["focus_len"] = Len
        it.models[inspect.getmembers] = lambda *a: Members([(g, (Opaque("name", (str,), True), Ctor(m))) for g, m in self.builtin])
        it.models[pkgutil.find_loader] = lambda n: ctx.pick([None, Opaque("loader", (), True)], "loader")
        it.models[importlib.util.find_spec] = lambda n: ctx.pick([None, Opaque("spec", (), True)], "spec")

        def imp(n):
            if ctx.choose(2, "import fails"):
                raise ImportError("no module")

        it.models[importlib.import_module] = imp
        it.by_name["find_thirdparty_marshaller_plugins"] = lambda: AnyVersion(self)
        it.by_name["supported_marshaller_api_versions"] = lambda: ("1.0",)
        self.builtin = self.plugin = None

    def group(self, name, focus, after):
        """A group of marshallers: holding the first declarer, before or after it."""
        if focus:
            return [(True, Marsh(self, f"{name} before", "no")), (False, Marsh(self, f"{name} first", "yes")), (True, Marsh(self, f"{name} after", "any"))]
        return [(True, Marsh(self, f"{name} all", "any" if after else "no"))]

    def make(self, priority, user, plugins=False, lazy=True):
        import hdf5storage as h

        return self.it.instantiate(h.MarshallerCollection, [], dict(load_plugins=plugins, lazy_loading=lazy, priority=priority, marshallers=user))

    def question(self):
        n = Name("the key", True)
        return ClassTok(n) if self.asked else n

    def lookup(self, c):
        return self.it.call(self.it.getattr(c, f"get_marshaller_for_{self.kind}"), self.question())


class AnyVersion(Model):
    def __init__(self, cm):
        self.cm = cm

    def sym_getitem(self, v):
        return self

    def values(self):
        p = self.cm.plugin
        junk = Opaque("no marshaller", (), True)
        return FocusSeq([(False, Plugin(self.cm, FocusSeq(p + [(True, junk)])))])


PERMS = list(itertools.permutations(("builtin", "plugin", "user")))


def scenario(ctx, kind, priority, where):
    """Groups such that the first declarer is in group ``where`` (None: nobody)."""
    cm = CM(ctx, kind)
    forms = [(False, False), (True, True)] if kind == "type" and priority[0] == "builtin" else [(True, False)] if kind == "type" else [(False, False)]
    cm.classes, cm.asked = ctx.pick(forms, "declared and asked with classes")
    seqs, seen = {}, False
    for g in priority:
        seqs[g] = cm.group(g, g == where, seen)
        seen = seen or g == where
    cm.builtin, cm.plugin, cm.user = seqs["builtin"], seqs["plugin"], seqs["user"]
    cm.first = next((m for g in seqs.values() for gen, m in g if not gen), None)
    return cm


def check_lookup(cm, c, first, where):
    r = cm.lookup(c)
    ok = isinstance(r, tuple) and len(r) == 2
    cm.ctx.oblige(f"{where}:get_marshaller_for_{cm.kind} gives the first that declares it", ok and r[0] is first, f"{r!r} instead of {first!r}")
    if ok:
        cm.ctx.oblige(f"{where}:and whether its modules are there", isinstance(r[1], bool) and (first is not None or r[1] is False))


def proc_lookup(kind, priority, where, plugins):
    def proc(ctx):
        cm = scenario(ctx, kind, priority, where)
        cm.noise = not plugins
        c = cm.make(priority, FocusSeq(cm.user), plugins, True)
        first = cm.first
        if plugins and where == "plugin":
            r = cm.lookup(c)[0]
            if r is not first:
                # the plugin may have failed to load; then it gives nothing
                loaded = any("plugin=0" in t for t in ctx.trace)
                ctx.oblige(f"init:get_marshaller_for_{kind} gives the first that declares it", not loaded, f"{r!r} instead of {first!r}")
                return
        check_lookup(cm, c, first, "init")
        ctx.oblige("init:priority", cm.it.call(tuple, cm.it.getattr(c, "priority")) == tuple(priority))
        ctx.cover("ok")

    return proc


def real(cm, seq):
    return [(g, m) for g, m in seq.elems if not (g and cm.empty.get(id(m)))]


def at(x):
    return x.elem if isinstance(x, Idx) else x


def same_field(cm, x, y):
    if isinstance(x, FocusSeq) and isinstance(y, FocusSeq):
        a, b = real(cm, x), real(cm, y)
        return len(a) == len(b) and all(g == h and p is q for (g, p), (h, q) in zip(a, b))
    if isinstance(x, KeyedDict) and isinstance(y, KeyedDict):
        return x.has == y.has and at(x.val) is at(y.val)
    if isinstance(x, Flags) and isinstance(y, Flags):
        return all(x.m.get(i, x.default) is y.m.get(i, y.default) for i in set(x.m) | set(y.m))
    if isinstance(x, list) and isinstance(y, list):
        return not x and not y
    if isinstance(x, (bool, str, tuple, int)) or x is None:
        return type(x) is type(y) and x == y
    return False


def same(cm, a, b, what):
    """Obligation: two collections answer alike, now and after any further operations.

    Alike in the future because their states are the same; a difference of the
    states that the answers do not show leaves it undecided."""
    q = cm.question()
    get = f"get_marshaller_for_{cm.kind}"
    r, e = cm.it.call(cm.it.getattr(a, get), q), cm.it.call(cm.it.getattr(b, get), q)
    cm.ctx.oblige(f"{what}:lookup", len(r) == len(e) == 2 and r[0] is e[0] and r[1] is e[1], f"{r!r} instead of {e!r}")
    va, vb = vars(a), vars(b)
    diff = sorted(set(va) ^ set(vb)) + sorted(n for n in va if n in vb and not same_field(cm, va[n], vb[n]))
    if diff:
        raise Unsupported(f"the fields {diff} differ")


def twin(cm, priority, users):
    cm.noise = False
    return cm.make(priority, FocusSeq(users))


def proc_op(kind, priority, op):
    def proc(ctx):
        cm = CM(ctx, kind)
        it = ctx.interp
        cm.builtin = [(True, Marsh(cm, "builtin", "any"))]
        u1, u, u2 = (Marsh(cm, n, "any") for n in ("user before", "user", "user after"))
        users = [(True, u1), (False, u), (True, u2)]
        if op in ("clear", "remove"):
            users = users[1:]
        elif op != "again":
            users = users[:1]
        c = twin(cm, priority, users)
        cm.noise = True
        new = Marsh(cm, "new", "any")
        if op == "add one":
            it.call(it.getattr(c, "add_marshaller"), new)
            same(cm, c, twin(cm, priority, [*users, (False, new)]), op)
        elif op == "add":
            more = Marsh(cm, "more", "any")
            given = [[(True, more), (False, new)], [(False, new), (False, new), (True, more)], [(True, u1), (False, new)], [(False, new), (True, u1)]][
                ctx.choose(4, "form")]
            it.call(it.getattr(c, "add_marshaller"), FocusSeq(given))
            want = list(users)
            for g, m in given:
                if not any(m is y for _, y in want):
                    want.append((g, m))
            same(cm, c, twin(cm, priority, want), op)
        elif op == "clear":
            it.call(it.getattr(c, "clear_marshallers"))
            same(cm, c, twin(cm, priority, []), op)
        elif op == "remove":
            form = ctx.choose(3, "form")
            arg = [u, FocusSeq([(False, u)]), FocusSeq([(True, new), (False, u)])][form]
            it.call(it.getattr(c, "remove_marshaller"), arg)
            same(cm, c, twin(cm, priority, users[1:]), op)
        elif op == "again":
            form = ctx.choose(4, "form")
            arg = [u, FocusSeq([(False, u)]), FocusSeq(users), FocusSeq([(True, u2), (False, u), (False, u)])][form]
            it.call(it.getattr(c, "add_marshaller"), arg)
            same(cm, c, twin(cm, priority, users), op)
        elif op == "bad":
            bad = Opaque("no marshaller", (), True)
            form = ctx.choose(3, "form")
            arg = [FocusSeq([(True, new), (False, bad)]), FocusSeq([(False, new), (False, bad), (True, u1)]), bad][form]
            e = None
            try:
                it.call(it.getattr(c, "add_marshaller"), arg)
            except (Unsupported, PathEnd):
                raise
            except Exception as x:  # noqa: BLE001
                e = x
            ctx.oblige("bad:what is no marshaller is rejected with TypeError", isinstance(e, TypeError), repr(e))
            same(cm, c, twin(cm, priority, users), "rejected add")
        ctx.cover("ok")

    return proc


def proc_priority(p):
    def proc(ctx):
        cm = scenario(ctx, "type", ("builtin", "plugin", "user"), "builtin")
        e = None
        try:
            c = cm.make(p, FocusSeq(cm.user))
        except (Unsupported, PathEnd):
            raise
        except Exception as x:  # noqa: BLE001
            e = x
        good = isinstance(p, (tuple, list)) and len(p) == 3 and set(p) == {"builtin", "plugin", "user"}
        ctx.oblige("init:priority is validated", (e is None) == good and (e is None or isinstance(e, (TypeError, ValueError))), f"{p!r} {e!r}")

    return proc


def procedures(tier):
    out = []
    groups = (None, "builtin", "plugin", "user")
    for kind in KINDS:
        for pr in PERMS:
            for w in groups:
                if w != "plugin":
                    out.append((f"lookup {kind} {'<'.join(pr)} in {w}", proc_lookup(kind, pr, w, False), dict(must_cover={"ok"})))
    for kind in KINDS:
        for pr in PERMS:
            out.append((f"lookup {kind} {'<'.join(pr)} in plugin, plugins loaded", proc_lookup(kind, pr, "plugin", True), dict(must_cover={"ok"})))
    for op in ("add one", "add", "clear", "remove", "bad", "again"):
        for kind in KINDS:
            for pr in PERMS if tier != "quick" else (PERMS[0], PERMS[5]):
                out.append((f"{op} {kind} {'<'.join(pr)}", proc_op(kind, pr, op), dict(must_cover={"ok"})))
    names = ("builtin", "plugin", "user", "other")
    bad = [(), ("builtin",), ("builtin", "plugin"), ("builtin", "plugin", "user", "user"), None, 3, {"builtin", "plugin", "user"},
           ["builtin", "plugin", "user"], "abc", (1, 2, 3)]
    for p in list(itertools.product(names, repeat=3)) + bad:
        out.append((f"priority {p!r}", proc_priority(p), {}))
    return out
