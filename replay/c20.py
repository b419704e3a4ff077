"""C20: several threads on one handle; afterwards the outcome is checked against what any order allows."""
import sys
import threading
from unittest import mock

import h5py
import numpy as np

import hdf5storage as h

from .base import V, Violation, expect
from .common import fresh

CASE_S = 60.0


def run(threads, limit=40):
    errors = []

    def guard(fn):
        def body():
            try:
                fn()
            except BaseException as e:  # noqa: BLE001
                errors.append(e)

        return body

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=guard(t), daemon=True) for t in threads]
        for t in ts:
            t.start()
        for t in ts:
            t.join(limit)
        if any(t.is_alive() for t in ts):
            raise Violation("a thread hangs")
    finally:
        sys.setswitchinterval(old)
    return errors


def payload(writer, n, r):
    """A value every part of which tells which write it comes from."""
    k = (writer * 1000 + n)
    form = r.randrange(5)
    if form == 0:
        return [k, str(k), [k] * 3]
    if form == 1:
        return {"a": k, "b": [k, k], "c": str(k)}
    if form == 2:
        return np.full((r.choice([3, 500]),), k)
    if form == 3:
        return str(k) * 5
    return k


def tag(v):
    if isinstance(v, list):
        t = {v[0], int(v[1])} | set(v[2])
    elif isinstance(v, dict):
        t = {v["a"], int(v["c"])} | set(v["b"])
    elif isinstance(v, np.ndarray):
        t = set(v.tolist())
    elif isinstance(v, str):
        n = len(v) // 5
        t = {int(v[i * n:(i + 1) * n]) for i in range(5)}
    else:
        t = {v}
    if len(t) != 1:
        raise Violation(f"torn value {v!r}")
    return t.pop()


def mixed(r):
    fn = fresh("t.h5")
    kw = dict(matlab_compatible=r.choice([True, False]))
    paths = ["/s", "/p/s"]
    nw, nr, n = r.choice([1, 2, 3]), r.choice([1, 2]), r.choice([2, 4])
    plan = [[(p, payload(w + 1, i, r)) for i in range(n) for p in [r.choice(paths)]] for w in range(nw)]
    own = [{f"/own{w}": [w, "x" * w]} for w in range(nw)]
    f = h.File(fn, writable=True, **kw)
    for p in paths:
        f[p] = 7
    valid = {7} | {tag(v) for pl in plan for _, v in pl}

    def writer(w):
        def body():
            f.writes(own[w])
            for p, v in plan[w]:
                f[p] = v
        return body

    def reader():
        last = {}
        for _ in range(n * 2):
            for p in paths:
                t = tag(f[p])
                if t not in valid:
                    raise Violation(f"{p} read as {t}, which nobody wrote")
                last[p] = t
            if not (p in f and len(f) >= 2 and "s" in list(f)):
                raise Violation("listing without the variables")

    errors = run([writer(w) for w in range(nw)] + [reader] * nr)
    if errors:
        raise Violation(f"{type(errors[0]).__name__}: {errors[0]}") from errors[0]
    for p in paths:
        t = tag(f[p])
        lasts = {tag([v for q, v in pl if q == p][-1]) for pl in plan if any(q == p for q, _ in pl)} or {7}
        expect(t in lasts, f"{p} ends as {t}, last writes were {lasts}")
    for w in range(nw):
        expect(f[f"/own{w}"] == [w, "x" * w], f"the write of thread {w} was lost")
    f.close()
    with h.File(fn, **kw) as g:
        for w in range(nw):
            expect(g[f"/own{w}"] == [w, "x" * w], f"the write of thread {w} was lost in the file")
    return repr((nw, nr, n))


def closing(r):
    """Operations race with close: they work or raise OSError, nothing else."""
    fn = fresh("t.h5")
    f = h.File(fn, writable=True, matlab_compatible=False)
    f["/s"] = [1, "x"]
    count = [0]

    def user(op):
        def body():
            for _ in range(6):
                try:
                    op()
                except OSError:
                    return
                except KeyError:
                    pass
                count[0] += 1
        return body

    def add():
        f["/n%d" % r.randrange(9)] = [2, 3]

    def rd():
        if f["/s"] != [1, "x"]:
            raise Violation("wrong value")

    ops = [add, rd, lambda: len(f), lambda: list(f.keys()), lambda: "/s" in f, lambda: f.flush(), lambda: f.__delitem__("/n1"), lambda: f.closed]
    errors = run([user(r.choice(ops)) for _ in range(3)] + [f.close, f.close])
    if errors:
        raise Violation(f"{type(errors[0]).__name__}: {errors[0]}") from errors[0]
    expect(f.closed, "not closed")
    with h.File(fn, matlab_compatible=False) as g:
        expect(g["/s"] == [1, "x"], "data lost by closing")
        for k in g:
            expect(g[k] == ([1, "x"] if k == "s" else [2, 3]), f"{k} torn by closing")
    return repr(count)


def released(r):
    """After any failed operation the handle still answers (no lock is left held)."""
    fn = fresh("t.h5")
    w = r.choice([True, False])
    with h.File(fn, writable=True, matlab_compatible=False) as f:
        f["/s"] = 1
    f = h.File(fn, writable=w, matlab_compatible=False)

    class Bad(dict):
        def items(self):
            raise RuntimeError("items")

    bad = [lambda: f["/missing"], lambda: f.read("/#refs#"), lambda: f.write(1, "/#refs#/a"), lambda: f.__delitem__("/missing"), lambda: f.read(5),
           lambda: f.write(1, 5.5), lambda: f.writes(Bad(a=1)), lambda: f.reads(["/s", "/missing"]), lambda: f.writes({"/x": 1, 5: 2}),
           lambda: f.reads(5), lambda: f.writes(5), lambda: f.__contains__(5), lambda: f.write(object(), "/o"), lambda: f.reads(x for x in [1 / 0]),
           lambda: f.write(lambda: 0, "/fn"), lambda: f.pop("/missing"), lambda: f.write([object()], "/lo"), lambda: f.read("/s/below/this"),
           lambda: f.writes({"/s/below": 1}),
           lambda: f.__delitem__("a\ud800"), lambda: f.read("a\ud800"), lambda: f.__contains__("a\ud800"), lambda: f.__delitem__("/"), lambda: f.__delitem__("")]
    op = r.choice(bad)

    def body():
        try:
            op()
        except Exception:  # noqa: BLE001
            pass
        if f["/s"] != 1:
            raise Violation("wrong value")
        f.flush()
        len(f), list(f), "/s" in f

    errors = run([body], 15)
    if errors:
        raise errors[0]
    if r.random() < 0.5:
        f.close()
        errors = run([lambda: [x() for x in [f.close]]], 15)
        op2 = r.choice(bad)

        def after():
            try:
                op2()
            except Exception:  # noqa: BLE001
                pass
            f.close()

        errors += run([after], 15)
        if errors:
            raise errors[0]
    else:
        errors = run([f.close], 15)
        if errors:
            raise errors[0]
    return repr((w, bad.index(op)))


CALLS = [(h5py.Group, x) for x in ("__delitem__", "get", "__contains__", "__getitem__", "__len__", "__iter__", "create_dataset", "create_group",
                                   "require_group")] + [(h5py.File, "flush"), (h5py.File, "close")]


def faults(r):
    """Whatever the HDF5 library raises wherever in an operation: the handle still answers afterwards."""
    fn = fresh("t.h5")
    f = h.File(fn, writable=True, matlab_compatible=False)
    f["/s"] = [1, {"a": 2}]
    name, op = r.choice(list(dict(
        read=lambda: f["/s"], write=lambda: f.write([1, "x"], "/t"), delete=lambda: f.__delitem__("/s"), member=lambda: "/s" in f,
        size=lambda: len(f), names=lambda: list(f), flush=lambda: f.flush(), close=lambda: f.close(), pop=lambda: f.pop("/s"),
        clear=lambda: f.clear(), update=lambda: f.update(a=1), default=lambda: f.setdefault("/q", 2)).items()))
    cls, call = r.choice(CALLS)
    exc = r.choice([RuntimeError, KeyError, ValueError, OSError, MemoryError, KeyboardInterrupt])
    left = [r.choice([0, 0, 0, 1, 2, 5])]
    real = getattr(cls, call)

    def failing(*a, **k):
        if left[0] == 0:
            left[0] -= 1
            raise exc("injected")
        left[0] -= 1
        return real(*a, **k)

    def body():
        with mock.patch.object(cls, call, failing):
            try:
                op()
            except BaseException:  # noqa: BLE001
                pass

    def after():
        try:
            f.flush()
            len(f), list(f), "/s" in f
            f.write(3, "/fresh")
            if f["/fresh"] != 3:
                raise Violation("wrong value")
        except OSError:
            if name != "close":
                raise
        f.close()

    errors = run([body], 15) + run([after], 15)
    if errors:
        raise errors[0]
    return repr((name, call, exc.__name__))


KINDS = dict(faults=faults, mixed=mixed, closing=closing, released=released)
del V
