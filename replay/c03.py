"""C03: spellings of paths in and around the Group for references, single and in batches."""
import pathlib

import hdf5storage as h

from .base import V, expect, expect_raises, expect_same
from .common import fresh, raw_tree

GROUPS = ["/#refs#", "/refs", "/r", "refs//", "/./refs", "/refs/"]


def spell(r, g):
    name = g.strip("/")
    below = r.choice(["", "", "/a", "/b", "/x/y", "/..x"])
    p = name + below
    forms = [
        "/" + p, p, "/" + p + "/", "//" + p, "/./" + p, "/zz/../" + p, ("/" + p).encode(), p.encode(), pathlib.PurePosixPath("/" + p),
        pathlib.PurePosixPath(p), tuple(p.split("/")), list(p.split("/")), "/" + name + "//" + below.strip("/"), "/" + name + "/." + below,
        tuple(x.encode() for x in p.split("/")), (pathlib.PurePosixPath(name),) + tuple(x for x in below.split("/") if x), "./" + p,
    ]
    if below == "/..x":
        forms = forms[:3]
    return r.choice(forms)


def setup(r):
    kw = dict(matlab_compatible=False)
    if r.random() < 0.4:
        kw = dict(matlab_compatible=True)
        g = "/#refs#"
    else:
        g = r.choice(["/#refs#", "/refs", "/r", "/zz#"])
        kw["group_for_references"] = r.choice([g, g + "/", "/." + g, g + "//"])
    fn = fresh("r.h5")
    data = {"/a": [1, "x", None], "/n": 5}
    with h.File(fn, writable=True, **kw) as f:
        for k, v in data.items():
            f.write(v, k)
    return fn, kw, g, data


def hidden(r):
    fn, kw, g, data = setup(r)
    with h.File(fn, **kw) as f:
        expect(sorted(f) == ["a", "n"], f"listing {list(f)!r} with references in {g!r}")
        expect(len(f) == 2, f"length {len(f)} with references in {g!r}")
        expect(sorted(f.keys()) == ["a", "n"] and len(list(f.values())) == 2, "views")
        for k, v in data.items():
            expect_same(v, f.read(k), k)
    return repr(kw)


def single(r):
    fn, kw, g, data = setup(r)
    p = spell(r, g)
    before = raw_tree(fn)
    with h.File(fn, writable=True, **kw) as f:
        expect_raises(ValueError, lambda: f.write(7, p), f"write to {p!r} with references in {g!r}")
        expect_raises(ValueError, lambda: f.read(p), f"read of {p!r} with references in {g!r}")
        expect_raises(ValueError, lambda: f.__setitem__(p, 7), f"item assignment to {p!r}")
        expect_raises(ValueError, lambda: f[p], f"item access to {p!r}")
    expect(raw_tree(fn) == before, f"the file changed by refused access to {p!r}")
    with h.File(fn, **kw) as f:
        for k, v in data.items():
            expect_same(v, f.read(k), k)
    return repr(p)


def batch(r):
    fn, kw, g, data = setup(r)
    p = spell(r, g)
    if isinstance(p, list):
        p = tuple(p)
    items = [("/n%d" % i, V.scalar(r)) for i in range(r.randrange(0, 4))]
    items.insert(r.randrange(len(items) + 1), (p, 3))
    before = raw_tree(fn)
    with h.File(fn, writable=True, **kw) as f:
        expect_raises(ValueError, lambda: f.writes(dict(items)), f"batch write with {p!r}")
        expect_raises(ValueError, lambda: f.reads([k for k, _ in items]), f"batch read with {p!r}")
    expect(raw_tree(fn) == before, f"the file changed by a refused batch with {p!r}")
    return repr(p)


def neighbours(r):
    """Paths that merely look like the Group are ordinary paths."""
    fn, kw, g, data = setup(r)
    name = g.strip("/")
    p = r.choice([name + "x", "x/" + name, name[:-1] or "q", "." + name + "/..y" if False else "x" + name, name + "/../b"])
    v = V.scalar(r)
    with h.File(fn, writable=True, **kw) as f:
        f.write(v, p)
        expect_same(v, f.read(p), p)
    return repr(p)


KINDS = dict(hidden=hidden, single=single, batch=batch, neighbours=neighbours)
