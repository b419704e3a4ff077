"""C06: every operation on handles that are open for writing, read-only or closed, in random orders."""
import hdf5storage as h

from .base import Violation, V, expect, expect_raises, expect_same
from .common import file_bytes, fresh

READ = {
    "read": lambda f: f.read("/a"), "reads": lambda f: f.reads(["/a", "/b"]), "getitem": lambda f: f["/a"], "len": len,
    "iter": lambda f: list(f), "contains": lambda f: "/a" in f, "keys": lambda f: list(f.keys()), "values": lambda f: list(f.values()),
    "items": lambda f: list(f.items()), "get": lambda f: f.get("/a"), "flush": lambda f: f.flush(), "eq": lambda f: f == {},
    "contains_missing": lambda f: "/zz" in f, "reads_none": lambda f: f.reads([]),
}
WRITE = {
    "write": lambda f: f.write(5, "/n"), "writes": lambda f: f.writes({"/n": 1, "/m": 2}), "setitem": lambda f: f.__setitem__("/n", 3),
    "delitem": lambda f: f.__delitem__("/a"), "update": lambda f: f.update({"/n": 4}), "clear": lambda f: f.clear(),
    "pop": lambda f: f.pop("/a"), "popitem": lambda f: f.popitem(), "setdefault": lambda f: f.setdefault("/new", 4),
    "writes_none": lambda f: f.writes({}), "overwrite": lambda f: f.write([1, 2], "/a"),
}


def make(r):
    fn = fresh("l.h5")
    kw = dict(matlab_compatible=r.choice([True, False]))
    data = {"/a": V.scalar(r), "/b": [1, "x"]}
    with h.File(fn, writable=True, **kw) as f:
        expect(f.closed is False, "closed while open")
        f.writes(data)
    return fn, kw, data


def closed(r):
    fn, kw, data = make(r)
    w = r.choice([True, False])
    how = r.choice(["close", "with", "exception"])
    if how == "close":
        f = h.File(fn, writable=w, **kw)
        f.close()
    elif how == "with":
        with h.File(fn, writable=w, **kw) as f:
            pass
    else:
        try:
            with h.File(fn, writable=w, **kw) as f:
                raise ZeroDivisionError
        except ZeroDivisionError:
            pass
        else:
            raise Violation("the exception was swallowed")
    expect(f.closed is True, "not closed")
    b = file_bytes(fn)
    ops = list(READ.items()) + list(WRITE.items())
    r.shuffle(ops)
    for n, op in ops:
        if n in ("eq",):
            continue
        if r.random() < 0.1:
            f.close()
        expect_raises(OSError, lambda: op(f), f"{n} on a closed file")
    f.close()
    expect(f.closed is True, "not closed after closing again")
    expect(file_bytes(fn) == b, "operations on a closed file changed it")
    with h.File(fn, **kw) as f:
        for k, v in data.items():
            expect_same(v, f[k], "after reopening")
    return how


def readonly(r):
    fn, kw, data = make(r)
    b = file_bytes(fn)
    f = h.File(fn, writable=False, **kw)
    ops = list(READ.items()) + list(WRITE.items())
    r.shuffle(ops)
    for n, op in ops:
        if n in WRITE:
            if n == "setdefault":
                op = lambda f: f.setdefault("/new%d" % r.randrange(9), 1)  # noqa: E731
            expect_raises(OSError, lambda: op(f), f"{n} on a read-only file")
        elif n not in ("eq",):
            op(f)
    for k, v in data.items():
        expect_same(v, f[k], "read-only read")
    f.close()
    expect(file_bytes(fn) == b, "a read-only file was changed")
    return repr(sorted(data))


def cycle(r):
    fn = fresh("m.h5")
    model = {}
    log = []
    kw = dict(matlab_compatible=r.choice([True, False]))
    for _ in range(r.randrange(1, 5)):
        boom = r.random() < 0.3
        trunc = r.random() < 0.15
        try:
            with h.File(fn, writable=True, truncate_existing=trunc, **kw) as f:
                if trunc:
                    model = {}
                for _ in range(r.randrange(4)):
                    k = "/" + r.choice("abc")
                    if r.random() < 0.2 and k in model:
                        del f[k]
                        del model[k]
                    else:
                        model[k] = V.scalar(r)
                        f[k] = model[k]
                if boom:
                    raise KeyError("boom")
        except KeyError:
            expect(boom, "KeyError")
        expect(f.closed, "not closed after leaving the context")
        log.append((boom, trunc, len(model)))
        with h.File(fn, **kw) as g:
            expect(sorted("/" + k for k in g) == sorted(model), f"{list(g)!r} instead of {sorted(model)!r}")
            for k, v in model.items():
                expect_same(v, g[k], f"after reopening {log!r}")
    return repr(log)


def badargs(r):
    fn = fresh("n.h5")
    c = r.randrange(5)
    if c == 0:
        expect_raises(TypeError, lambda: h.File(5), "file name")
    elif c == 1:
        expect_raises(TypeError, lambda: h.File(fn, writable=1), "writable")
    elif c == 2:
        expect_raises(TypeError, lambda: h.File(fn, writable=True, truncate_existing=None), "truncate_existing")
    elif c == 3:
        expect_raises(TypeError, lambda: h.File(fn, writable=True, options=5), "options")
    else:
        expect_raises(ValueError, lambda: h.File(fn, writable=True, options=h.Options(), compress=True), "options and keywords")
    import os
    expect(not os.path.exists(fn), "a file was made")
    expect_raises(OSError, lambda: h.File("does-not-exist.h5"), "missing file")
    return str(c)


KINDS = dict(closed=closed, readonly=readonly, cycle=cycle, badargs=badargs)
