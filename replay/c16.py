"""C16: every reference in the file points to an entry of its own, over histories of writes."""
import h5py
import numpy as np

import hdf5storage as h

from .base import V, any_kw, expect, expect_same, short
from .c15 import value
from .common import fresh


def references(fn, grp):
    """Every stored reference outside of nowhere: (holder, index) -> target name."""
    out = {}
    with h5py.File(fn, "r") as f:
        def visit(name, o):
            if isinstance(o, h5py.Dataset) and h5py.check_dtype(ref=o.dtype) is not None:
                for i, x in enumerate(np.atleast_1d(o[()]).flat):
                    out[(name, i)] = f[x].name if x else None

        f.visititems(visit)
    return out


def check(fn, kw, what):
    grp = "/" + kw.get("group_for_references", "/#refs#").strip("/")
    refs = references(fn, grp)
    seen = {}
    for k, t in refs.items():
        expect(t is not None, f"null reference at {k} after {what}")
        expect(t.startswith(grp + "/"), f"reference {k} leads to {t} outside of {grp} after {what}")
        if t == grp + "/a":
            continue
        expect(t not in seen, f"{k} and {seen.get(t)} share the entry {t} after {what}")
        seen[t] = k
    return refs


def nested(r):
    return [V.container(r) if r.random() < 0.5 else V.scalar(r) for _ in range(r.choice([1, 3, 20, 60]))]


def prepare(r, fn, kw):
    """The Group for references may exist already, made by others."""
    grp = kw.get("group_for_references", "/#refs#").strip("/")
    k = r.randrange(4)
    if k == 0 or kw.get("matlab_compatible", True):
        return {}
    with h5py.File(fn, "w") as f:
        if k == 1:
            f.create_dataset(grp, data=3)
            return {}
        g = f.create_group(grp)
        names = r.sample(["b", "c", "d", "10", "1f", "20", "%016x" % r.getrandbits(64)], 4)
        for n in names:
            g.create_dataset(n, data=np.array([ord(c) for c in n]))
        if k == 3:
            g.create_dataset("a", data=r.choice([5, np.zeros(2, "u1"), np.array([0, 0], "f8")]))
        return {grp + "/" + n: [ord(c) for c in n] for n in names}


def history(r):
    fn = fresh("o.h5")
    kw = any_kw(r)
    there = prepare(r, fn, kw)
    model, log = {}, []
    for _ in range(r.choice([1, 2, 3])):
        with h.File(fn, writable=True, **kw) as f:
            for _ in range(r.choice([1, 2])):
                p = r.choice(["/x", "/y", "/p/z"])
                v = nested(r) if r.random() < 0.6 else value(r, kw)
                if isinstance(v, list):
                    from .common import supported
                    if not supported(v, kw):
                        continue
                f[p] = v
                model[p] = v
                log.append(f"{p}={short(v, 60)}")
        check(fn, kw, log)
        with h.File(fn, **kw) as f:
            for p in model:
                if kw.get("delete_unused_variables", True):  # otherwise fields of what was there before stay
                    expect_same(model[p], f[p], f"{p} after {log}")
        with h5py.File(fn, "r") as f:
            for n, d in there.items():
                expect(n in f and list(f[n][()]) == d, f"entry {n} changed after {log}")
    return repr(log)


def colliding(r):
    """The generator of random names repeats itself: names stay fresh."""
    import random

    fn = fresh("o.h5")
    kw = dict(matlab_compatible=r.choice([True, False]))
    first = [V.scalar(r) for _ in range(r.choice([1, 4]))]
    with h.File(fn, writable=True, **kw) as f:
        f["/a"] = first
    pool = [r.getrandbits(64) for _ in range(r.choice([1, 2, 4]))]
    it = iter([r.choice(pool) for _ in range(40)] + [r.getrandbits(64) for _ in range(100)])
    state = random.getstate()
    real = random.getrandbits
    second = [V.scalar(r) for _ in range(r.choice([2, 8]))]
    try:
        random.getrandbits = lambda k: next(it) if k == 64 else real(k)
        with h.File(fn, writable=True, **kw) as f:
            f["/b"] = second
            f["/c"] = first
    finally:
        random.getrandbits = real
        random.setstate(state)
    check(fn, kw, "colliding names")
    with h.File(fn, **kw) as f:
        for p, v in (("/a", first), ("/b", second), ("/c", first)):
            expect_same(v, f[p], p)
    return repr((len(first), pool))


def discarded(r):
    fn = fresh("o.h5")
    v = [V.scalar(r) for _ in range(r.choice([1, 3]))]
    bad = sorted(r.sample(range(len(v) + 2), 2))
    for i in bad:
        v.insert(i, np.float16(1))
    kw = dict(matlab_compatible=True, action_for_matlab_incompatible="discard")
    again = r.random() < 0.5
    with h.File(fn, writable=True, **kw) as f:
        if again:
            f["/w"] = [1, np.float16(3)]
        f["/v"] = v
    refs = check(fn, kw, "discarding")
    for i, x in enumerate(v):
        t = refs[("v", i)]
        expect((t == "/#refs#/a") == isinstance(x, np.float16), f"element {i} of {v} leads to {t}")
    with h5py.File(fn, "r") as f:
        a = f["/#refs#/a"]
        expect(a.shape == (2,) and a.dtype == np.uint64 and not a[()].any() and a.attrs["MATLAB_class"] == b"canonical empty" and a.attrs["MATLAB_empty"] == 1, "canonical empty")
    return repr((len(v), bad, again))


KINDS = dict(history=history, colliding=colliding, discarded=discarded)
