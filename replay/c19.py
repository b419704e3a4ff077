"""C19: savemat and loadmat against a dictionary."""
import os

import hdf5storage as h

from .base import V, expect, expect_same, short
from .common import fresh, supported


def var(r):
    for _ in range(9):
        k = r.randrange(4)
        v = V.scalar(r) if k == 0 else V.np_array(r, ["num", "S", "U", "object", "matrix"]) if k < 3 else V.container(r)
        if supported(v, {}):
            return v
    return 1


def names(r, n):
    out = []
    while len(out) < n:
        c = r.choice("abxyzQ") + "".join(r.choice("abc019_") for _ in range(r.randrange(4)))
        if c not in out:
            out.append(c)
    return out


def mdict(r):
    return {n: var(r) for n in names(r, r.choice([0, 1, 2, 4]))}


def agree(want, got, what):
    expect(set(want) == set(got), f"{what}: names {list(got)} instead of {list(want)}")
    for k in want:
        expect_same(want[k], got[k], f"{what}: {k}")


def saved(r):
    d = mdict(r)
    base = r.choice(["m", "m.mat", "x.mat.y", "sub.d", "n.MAT"])
    app = r.choice([True, False])
    kw = {} if r.random() < 0.5 else dict(oned_as=r.choice(["row", "column"]), truncate_existing=r.choice([True, False]))
    real = base + ".mat" if app and not base.endswith(".mat") else base
    fresh(real)
    before = set(os.listdir())
    h.savemat(base, d, appendmat=app, **kw)
    new = set(os.listdir()) - before
    expect(new == {real}, f"savemat({base!r}, appendmat={app}) made {new}")
    agree(d, h.loadmat(base, appendmat=app), "all")
    agree(d, h.loadmat(real, appendmat=r.choice([True, False]) if real.endswith(".mat") else False), "full name")
    # asked for particular names
    ask = r.sample(list(d), r.randrange(len(d) + 1)) + r.choice([[], ["missing"], ["missing", "no"]])
    r.shuffle(ask)
    agree({k: d[k] for k in ask if k in d}, h.loadmat(real, appendmat=False, variable_names=r.choice([list, tuple])(ask)), f"names {ask}")
    # into a given dictionary
    m = r.choice([{"old": 5}, {}, {"o": 1, "p": 2}])
    if d and r.random() < 0.5:
        m[next(iter(d))] = "stale"
    want = dict(m, **d)
    got = h.loadmat(real, m, appendmat=False)
    expect(got is m, "the given dictionary was not returned")
    agree(want, m, "into")
    os.remove(real)
    return repr((base, app, short(d, 100)))


def existing(r):
    fn = fresh("m.mat")
    first, second = mdict(r), mdict(r)
    if first and second and r.random() < 0.5:
        second[next(iter(first))] = var(r)
    tr = r.choice([True, False])
    h.savemat("m", first)
    h.savemat("m.mat", second, truncate_existing=tr)
    agree(second if tr else dict(first, **second), h.loadmat("m"), f"second save with truncate_existing={tr}")
    os.remove(fn)
    return repr((short(first, 60), short(second, 60), tr))


KINDS = dict(saved=saved, existing=existing)
