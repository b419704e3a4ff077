"""C21: the obligations of the File contracts that belong to it
(contracts/filemodel.py), and what File gets from collections.abc on top.

The methods of Mapping and MutableMapping and the views are run from the
standard library's source (whichever class of the MRO defines them) over the
contracts of the five methods of File: an arbitrary dictionary, of which one
arbitrary key is looked at."""
import collections.abc

from contracts import filemodel
from contracts.filemodel import FileModel, run
from pyvc.engine import FocusSeq, Invariant, Model, Opaque, PathEnd, SBool, SInt, Unsupported, z3

TRUSTED = filemodel.TRUSTED

ABC = collections.abc


class Names(FocusSeq):
    """The names, in some order."""

    def __init__(self, d):
        super().__init__([(True, d.other), (False, d.key), (True, d.other)] if d.has else [(True, d.other)])
        self.d = d

    def sym_next(self, *default):
        d = self.d
        d.event("next")
        if d.has is None:
            raise Unsupported("iteration over names not fixed")
        if d.has:
            return d.key
        if default:
            return default[0]
        raise StopIteration


class Key(Model):
    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return self.label

    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_type(self):
        return str

    def sym_bool(self):
        return True


class Given(Model):
    """Something given to update or a view: a mapping, an object with keys or pairs."""

    def __init__(self, kind, pairs):
        self.kind, self.pairs = kind, pairs

    def sym_isinstance(self, cls):
        return self.kind == "mapping" and issubclass(dict, cls)

    def sym_getattr(self, n):
        if n in ("keys", "items") and self.kind in ("mapping", "keys"):
            return getattr(self, n)
        if n in ("__getitem__",) and self.kind in ("mapping", "keys"):
            return self.sym_getitem
        raise AttributeError(n)

    def sym_hasattr(self, n):
        return self.kind in ("mapping", "keys") and n in ("keys", "items", "__getitem__")

    def keys(self):
        return FocusSeq([(g, k) for g, (k, v) in self.pairs])

    def items(self):
        return FocusSeq(self.pairs)

    def sym_iter(self):
        return self.take_from()

    def take_from(self):
        return FocusSeq(self.pairs) if self.kind == "pairs" else self.keys()

    def take(self):
        return self.take_from().take()

    def sym_getitem(self, k):
        for g, (x, v) in self.pairs:
            if x is k:
                return v
        raise Unsupported("another key")


class Pairs(FocusSeq):
    def sym_hasattr(self, n):
        return hasattr(list, n)


class Dict:
    """The contracts of the five methods: a dictionary, seen at one arbitrary key."""

    def __init__(self, ctx, tag, what):
        import hdf5storage as h

        self.ctx, self.it, self.what = ctx, ctx.interp, what
        self.cls = h.File
        self.key, self.other, self.value = Key("key"), Key("another key"), Opaque("value", (), True)
        self.others = Opaque("value of another key", (), True)
        self.has, self.log, self.bad = None, [], None
        fm = self.fm = FileModel(ctx, tag, "File." + what)
        self.f = fm.build(True)

        def own(*a, **k):
            raise Unsupported("the operation uses the file itself")

        fm.access = own
        for x in fm.locks:
            x.acquire = own
        m = self.it.models
        for n in ("__getitem__", "__setitem__", "__delitem__", "__len__", "__iter__", "__contains__", "read", "write"):
            m[getattr(self.cls, n)] = getattr(self, n.strip("_"))
        self.it.hooks["inline_std"] = {"_collections_abc", "collections.abc"}
        for v in (ABC.KeysView, ABC.ItemsView, ABC.ValuesView):
            m[v] = self.view(v)
        self.it.list_factory = lambda: FocusSeq([])

    def view(self, cls):
        def make(mapping):
            v = object.__new__(cls)
            self.ctx.created.append(v)
            self.it.run_function(ABC.MappingView.__init__, [v, mapping], {})
            return v

        return make

    def event(self, kind, *args):
        self.log.append((kind,) + args)

    def refuse(self, k):
        if self.bad is not None and k is self.key:
            raise self.bad

    def getitem(self, f, k):
        if f is not self.f:
            raise Unsupported("another file")
        self.event("get", k)
        self.refuse(k)
        if k is self.key:
            if not self.has:
                raise KeyError("missing")
            return self.value
        if k is self.other:
            return self.others
        raise Unsupported(f"item {k!r}")

    read = getitem

    def setitem(self, f, k, v):
        self.event("set", k, v)
        self.refuse(k)
        if k is self.key:
            self.has, self.value = True, v

    def write(self, f, v, path="/"):
        self.setitem(f, path, v)

    def delitem(self, f, k):
        self.event("del", k)
        self.refuse(k)
        if k is self.key:
            if not self.has:
                raise KeyError("missing")
            self.has = False

    def len(self, f):
        self.event("len")
        return self.n()

    def n(self):
        n = z3.Int("rest")
        self.ctx.assume(n >= 0)
        return SInt(n + (1 if self.has else 0))

    def iter(self, f):
        self.event("iter")
        return Names(self)

    def contains(self, f, k):
        self.event("in", k)
        if k is self.key and self.bad is None:
            return self.has
        if k is self.other:
            return True
        raise Unsupported("membership")

    def start(self):
        self.log = []

    def changes(self):
        return [e for e in self.log if e[0] in ("set", "del")]

    def oblige(self, what, cond, detail=""):
        self.ctx.oblige(f"File.{self.what}:{what}", cond, detail)

    def call(self, name, *args, **kw):
        self.start()
        return run(self.fm, lambda: self.it.call(self.it.getattr(self.f, name), list(args), kw) if kw else self.it.call(self.it.getattr(self.f, name), *args))


def begin(ctx, what, bad=True):
    d = Dict(ctx, "C21", what)
    st = ctx.pick(["present", "missing"] + (["refused"] if bad else []), "the key is")
    d.has = st == "present"
    if st == "refused":
        d.bad = ValueError("refused")
    return d, st


def call(d, name, *args, **kw):
    d.start()
    it = d.it
    return run(d.fm, lambda: it.call_(it.getattr(d.f, name), list(args), kw))


def p_get(ctx):
    d, st = begin(ctx, "get")
    dflt = ctx.pick([False, "positional", "keyword"], "default given")
    w = Opaque("default", (), True)
    a, k = ((d.key, w), {}) if dflt == "positional" else ((d.key,), dict(default=w) if dflt else {})
    v0 = d.value
    r, e = call(d, "get", *a, **k)
    d.oblige("changes nothing", not d.changes())
    if st == "refused":
        ctx.cover("refused")
        d.oblige("a path that is refused is refused", e is d.bad, repr(e))
        return
    d.oblige("no exception", e is None, repr(e))
    ctx.cover(st)
    d.oblige("the data or the default", r is (v0 if st == "present" else w if dflt else None), repr(r))


def p_pop(ctx):
    d, st = begin(ctx, "pop")
    dflt = ctx.pick([False, "positional", "keyword"], "default given")
    w = Opaque("default", (), True)
    a, k = ((d.key, w), {}) if dflt == "positional" else ((d.key,), dict(default=w) if dflt else {})
    v0 = d.value
    r, e = call(d, "pop", *a, **k)
    ch = d.changes()
    ctx.cover(st)
    if st == "refused":
        d.oblige("a path that is refused is refused", e is d.bad, repr(e))
        d.oblige("a refused path changes nothing", not [c for c in ch if c[1] is not d.key])
        return
    if st == "present":
        d.oblige("no exception", e is None, repr(e))
        d.oblige("gives the data", r is v0)
        d.oblige("deletes the path and nothing else", len(ch) == 1 and ch[0] == ("del", d.key))
        return
    d.oblige("changes nothing if there is nothing", not [c for c in ch if c[0] == "set" or c[1] is not d.key])
    if dflt:
        d.oblige("gives the default", e is None and r is w, repr(e))
    else:
        d.oblige("KeyError if there is nothing", isinstance(e, KeyError), repr(e))


def p_popitem(ctx):
    d, st = begin(ctx, "popitem", False)
    v0 = d.value
    r, e = call(d, "popitem")
    ch = d.changes()
    ctx.cover(st)
    if st == "present":
        d.oblige("no exception", e is None, repr(e))
        d.oblige("gives a name and its data", isinstance(r, tuple) and len(r) == 2 and r[0] is d.key and r[1] is v0, repr(r))
        d.oblige("deletes it and nothing else", len(ch) == 1 and ch[0] == ("del", d.key))
    else:
        d.oblige("KeyError if there is nothing", isinstance(e, KeyError), repr(e))
        d.oblige("changes nothing if there is nothing", not ch)


def p_setdefault(ctx):
    d, st = begin(ctx, "setdefault")
    dflt = ctx.pick([False, "positional", "keyword"], "default given")
    w = Opaque("default", (), True)
    a, k = ((d.key, w), {}) if dflt == "positional" else ((d.key,), dict(default=w) if dflt else {})
    v0 = d.value
    r, e = call(d, "setdefault", *a, **k)
    ch = d.changes()
    ctx.cover(st)
    if st == "refused":
        d.oblige("a path that is refused is refused", e is d.bad, repr(e))
        d.oblige("a refused path changes nothing else", not [c for c in ch if c[1] is not d.key])
        return
    d.oblige("no exception", e is None, repr(e))
    if st == "present":
        d.oblige("gives the data", r is v0)
        d.oblige("changes nothing if it is there", not ch)
    else:
        x = w if dflt else None
        d.oblige("gives the default", r is x, repr(r))
        d.oblige("sets the default", len(ch) == 1 and ch[0][:2] == ("set", d.key) and ch[0][2] is x)


def p_update(ctx):
    d, st = begin(ctx, "update", False)
    kind = ctx.pick(["mapping", "keys", "pairs", "none"], "given")
    kw = ctx.pick([False, True], "keywords")
    pairs = [(True, (Key("before"), Opaque("value before", (), True))), (False, (d.key, Opaque("new value", (), True))),
             (True, (Key("after"), Opaque("value after", (), True)))]
    a = [Given(kind, pairs)] if kind != "none" else []
    if kind == "pairs":
        a = [Pairs(pairs)]
    x = Opaque("keyword value", (), True)
    r, e = call(d, "update", *a, **(dict(a_name=x) if kw else {}))
    ctx.cover("ok")
    d.oblige("no exception", e is None, repr(e))
    want = [p for g, p in pairs] if kind != "none" else []
    want = want + ([("a_name", x)] if kw else [])
    got = d.changes()
    place = [next((i for i, (k, v) in enumerate(want) if c[1] is k or c[1] == k), None) if c[0] == "set" else None for c in got]
    d.oblige("sets the items given and nothing else", None not in place, repr(got))
    if None in place:
        return
    d.oblige("in the order given, each once", all(a < b for a, b in zip(place, place[1:])), repr(got))
    d.oblige("leaves no item out", all(i in place for i, (k, v) in enumerate(want) if k is d.key or k == "a_name"), repr(got))
    d.oblige("each name gets its own data", all(c[2] is want[i][1] for c, i in zip(got, place)), repr(got))
    d.oblige("gives nothing", r is None)


class Clearing(Invariant):
    """n names are left."""

    def __init__(self, d):
        self.d = d

    def check(self, fr, when):
        self.d.oblige(f"the invariant of the loop, {when}", self.d.left.e >= 0)

    def havoc(self, fr):
        self.d.left = self.d.ctx.int("left")
        self.d.ctx.assume(self.d.left.e >= 0)


def p_clear(ctx):
    d, st = begin(ctx, "clear", False)
    d.left = ctx.int("left")
    ctx.assume(d.left.e >= 0)
    d.has = None
    it = ctx.interp

    def popitem(f):
        if f is not d.f:
            raise Unsupported("another file")
        d.event("popitem")
        if it.truth(SBool(d.left.e == 0)):
            raise KeyError("empty")
        d.left = SInt(d.left.e - 1)
        return d.key, d.value

    it.models[d.cls.popitem] = popitem
    it.hooks["while"] = lambda i, s, fr: Clearing(d)
    r, e = call(d, "clear")
    ctx.cover("ok")
    d.oblige("no exception", e is None, repr(e))
    d.oblige("nothing is left", d.left.e == 0)


def p_views(name):
    def proc(ctx):
        d, st = begin(ctx, name, False)
        it = ctx.interp
        v, e = call(d, name)
        d.oblige("no exception", e is None, repr(e))
        if e is not None:
            return
        op = ctx.pick(["len", "iter", "in"], "operation")
        ctx.cover(op)
        cls = {"keys": ABC.KeysView, "items": ABC.ItemsView, "values": ABC.ValuesView}[name]
        if not isinstance(v, cls) or isinstance(v, Model):
            raise Unsupported(f"view {v!r}")

        def do(n, *a):
            d.start()
            return run(d.fm, lambda: it.call_(getattr(type(v), n), [v, *a], {}))

        if op == "len":
            r, e = do("__len__")
            d.oblige("len gives the number of names", e is None and isinstance(r, SInt) and r.e == d.n().e, repr(e))
        elif op == "iter":
            r, e = do("__iter__")
            d.oblige("iteration raises nothing", e is None, repr(e))
            if e is not None:
                return
            got = [x for g, x in r.take() if not g] if isinstance(r, FocusSeq) else None
            if got is None:
                if isinstance(r, Model):
                    raise Unsupported("what the view gives")
                got = list(r)
            one = {"keys": d.key, "values": d.value, "items": (d.key, d.value)}[name]
            if st == "missing":
                d.oblige("iteration gives nothing that is not there", not got, repr(got))
            else:
                ok = len(got) == 1 and (got[0] is one or name == "items" and isinstance(got[0], tuple) and len(got[0]) == 2
                                        and got[0][0] is d.key and got[0][1] is d.value)
                d.oblige("iteration gives each one once", ok, repr(got))
        elif name == "keys":
            r, e = do("__contains__", d.key)
            d.oblige("a name is in it exactly if it is there", e is None and r is (st == "present"), repr(r))
        elif name == "items":
            r, e = do("__contains__", (d.key, d.value))
            d.oblige("an item is in it exactly if it is there", e is None and r is (st == "present"), repr(r))
        d.oblige("changes nothing", not d.changes())

    return proc


def procedures(tier):
    out = filemodel.procs("C21")
    for n, p in dict(get=p_get, pop=p_pop, popitem=p_popitem, setdefault=p_setdefault, update=p_update, clear=p_clear).items():
        cover = {"get": {"present", "missing", "refused"}, "pop": {"present", "missing", "refused"}, "popitem": {"present", "missing"},
                 "setdefault": {"present", "missing", "refused"}, "update": {"ok"}, "clear": {"ok"}}[n]
        out.append((f"mapping {n}", p, dict(must_cover=cover)))
    for n in ("keys", "items", "values"):
        out.append((f"mapping {n}", p_views(n), dict(must_cover={"len", "iter", "in"})))
    return out
