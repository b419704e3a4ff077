"""C21: histories of mapping operations on a file against the same ones on a dict."""
import pathlib

import hdf5storage as h
from hdf5storage import pathesc

from .base import V, root_kw, expect, expect_raises, expect_same, short
from .c15 import value
from .common import fresh


def keys(r):
    out = set()
    while len(out) < 4:
        k = r.choice(["a", "b", "x y", "\xe9", "zz", "..x", "0", "#", "A"]) if r.random() < 0.8 else pathesc.escape_path(V.text(r, 3, mode="t") or "e")
        if k not in (".", "..") and k:
            out.add(k)
    return sorted(out)


def spell(r, k):
    return r.choice([k, "/" + k, ("/" + k).encode(), pathlib.PurePosixPath("/" + k), "/./" + k, (pathesc.unescape_path(k),) if pathesc.escape_path(pathesc.unescape_path(k)) == k else k])


def consistent(f, model, absent, r, log):
    expect(len(f) == len(model), f"length {len(f)} for {sorted(model)} after {log}")
    expect(sorted(f) == sorted(model), f"iteration {sorted(f)} for {sorted(model)} after {log}")
    expect(sorted(f.keys()) == sorted(model) and len(f.keys()) == len(model), f"keys after {log}")
    order = list(f)
    for k, (k2, v) in zip(order, f.items()):
        expect(k == k2, f"items in another order than keys after {log}")
        expect_same(model[k], v, f"item {k} after {log}")
    for k, v in zip(order, f.values()):
        expect_same(model[k], v, f"value {k} after {log}")
    for k in model:
        p = spell(r, k)
        expect(p in f, f"{p!r} not a member after {log}")
        expect_same(model[k], f[p], f"{p!r} after {log}")
        expect_same(model[k], f.get(p), f"get {p!r} after {log}")
        expect_same(model[k], f.get(p, 3), f"get {p!r} after {log}")
    for k in absent:
        p = spell(r, k)
        expect(p not in f, f"{p!r} is a member after {log}")
        expect_raises(KeyError, lambda: f[p], f"item {p!r} after {log}")
        expect(f.get(p) is None and f.get(p, 7) == 7, f"get of {p!r} after {log}")


def history(r):
    fn = fresh("p.h5")
    kw = root_kw(r)
    names = keys(r)
    model, log = {}, []
    f = h.File(fn, writable=True, **kw)
    try:
        for _ in range(r.choice([2, 5, 8])):
            op = r.choice(["set", "set", "set", "del", "pop", "popd", "popitem", "setdefault", "update", "clear", "reopen"])
            k = r.choice(names)
            p = spell(r, k)
            log.append(f"{op} {p!r}")
            if op == "set":
                v = val(r, kw)
                f[p] = v
                model[k] = v
            elif op == "del":
                if k in model:
                    del f[p]
                    del model[k]
                else:
                    expect_raises(KeyError, lambda: f.__delitem__(p), f"{log}")
            elif op == "pop":
                if k in model:
                    expect_same(model.pop(k), f.pop(p), f"{log}")
                else:
                    expect_raises(KeyError, lambda: f.pop(p), f"{log}")
            elif op == "popd":
                want = model.pop(k, "dflt")
                expect_same(want, f.pop(p, "dflt"), f"{log}")
            elif op == "popitem":
                if model:
                    k, v = f.popitem()
                    expect(k in model, f"popped {k!r}")
                    expect_same(model.pop(k), v, f"{log}")
                else:
                    expect_raises(KeyError, f.popitem, f"{log}")
            elif op == "setdefault":
                v = val(r, kw)
                got = f.setdefault(p, v)
                expect_same(model.setdefault(k, v), got, f"{log}")
            elif op == "update":
                new = {n: val(r, kw) for n in r.sample(names, r.randrange(3))}
                r.choice([lambda: f.update(new), lambda: f.update(list(new.items())), lambda: f.update({"/" + n: v for n, v in new.items()})])()
                model.update(new)
            elif op == "clear":
                if r.random() < 0.5:
                    f.clear()
                    model.clear()
            else:
                f.close()
                f = h.File(fn, writable=True, **kw)
            consistent(f, model, [n for n in names if n not in model], r, log)
    finally:
        f.close()
    return short(log)


def val(r, kw):
    return value(r, kw) if r.random() < 0.3 else r.choice([1, "s", [1, None], {"k": 2}, b"", (), 2.5])


def nested(r):
    """Members below the root: a path is a member exactly if it can be read."""
    fn = fresh("p.h5")
    with h.File(fn, writable=True, matlab_compatible=r.choice([True, False])) as f:
        f.update({"/g/a": 1, "/g/h/b": [1, 2], "/d": {"k": 1, "l": {"m": 2}}, "/s": "x"})
        for _ in range(12):
            p = "/" + "/".join(r.choice(["g", "a", "h", "b", "d", "k", "l", "m", "s", "zz"]) for _ in range(r.choice([1, 2, 3])))
            try:
                f[p]
                there = True
            except KeyError:
                there = False
            expect((p in f) == there, f"{p} in file: {p in f}, readable: {there}")
            expect((f.get(p, f) is not f) == there, f"get of {p}")
            if r.random() < 0.2:
                if there:
                    del f[p]
                    expect(p not in f, f"{p} deleted but there")
                else:
                    expect_raises(KeyError, lambda: f.__delitem__(p), f"del of missing {p}")
        expect(sorted(f) == sorted(x for x in ("g", "d", "s") if "/" + x in f), "root")
    return "nested"


KINDS = dict(history=history, nested=nested)
