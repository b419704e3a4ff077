"""C23: batches against single operations, and the module level functions against handles."""
import copy

import hdf5storage as h

from .base import V, root_kw, expect, expect_raises, expect_same, short
from .c15 import value
from .c21 import spell
from .common import fresh, raw_tree

PATHS = ["/a", "/b", "/g/a", "/g/b", "/z", "/g/h/c"]


def items(r, kw):
    return [(p, value(r, kw) if r.random() < 0.5 else V.scalar(r)) for p in r.sample(PATHS, r.choice([0, 1, 2, 4]))] + (
        [(f"/w{i}", i) for i in range(r.choice([5, 20, 150]))] if r.random() < 0.08 else [])


def tree(fn, kw):
    """Content of a file, without the names in the Group for references."""
    return raw_tree(fn, kw.get("group_for_references", "#refs#").strip("/").split("/")[0])


def same_content(r):
    kw = root_kw(r)
    first, its = items(r, kw), items(r, kw)
    for fn in ("one.h5", "batch.h5"):
        fresh(fn)
        with h.File(fn, writable=True, **kw) as f:
            for p, v in first:
                f.write(v, p)
    with h.File("one.h5", writable=True, **kw) as f:
        for p, v in its:
            f.write(v, p)
    with h.File("batch.h5", writable=True, **kw) as f:
        f.writes(dict(its))
    expect(tree("one.h5", kw) == tree("batch.h5", kw), f"contents differ for {short(its)}")
    with h.File("batch.h5", **kw) as f:
        ps = [p for p, _ in dict(first + its).items()]
        r.shuffle(ps)
        ps += ps[:1]
        one = [f.read(p) for p in ps]
        seq = r.choice([list, tuple, iter])(ps)
        got = f.reads(seq)
        expect(isinstance(got, list) and len(got) == len(one), f"{got!r}")
        last = dict(first + its)
        for p, a, b in zip(ps, one, got):
            expect_same(a, b, f"{p} in a batch")
            expect_same(last[p], b, f"{p}")
    return repr([p for p, _ in its])


def refused(r):
    kw = root_kw(r)
    fn = fresh("batch.h5")
    its = items(r, kw)
    with h.File(fn, writable=True, **kw) as f:
        f["/a"] = 1
    grp = "/" + kw.get("group_for_references", "/#refs#").strip("/")
    bad, exc = r.choice([(5, TypeError), (None, TypeError), (2.5, TypeError), (("a", 5), TypeError), (grp, ValueError), (grp + "/x", ValueError)])
    before = raw_tree(fn)
    k = r.randrange(len(its) + 1)
    its.insert(k, (bad, 3))
    with h.File(fn, writable=True, **kw) as f:
        expect_raises(exc, lambda: f.writes(dict(its)), f"batch with {bad!r}")
        expect_raises(exc, lambda: f.reads(["/a", bad]), f"batch read with {bad!r}")
        expect_raises(TypeError, lambda: f.writes(r.choice([5, [("/a", 1)], None])), "not a mapping")
        expect_raises(TypeError, lambda: f.reads(r.choice([5, None])), "not an iterable")
    expect(raw_tree(fn) == before, f"a refused batch changed the file: {short(its)}")
    with h.File(fn, writable=True, **kw) as f:
        expect_raises(KeyError, lambda: f.reads(["/a", "/missing"]), "missing path in a batch")
    return repr((k, bad))


def module(r):
    kw = root_kw(r)
    its = items(r, kw)
    for fn in ("one.h5", "mod.h5"):
        fresh(fn)
    how = r.choice(["options", "keywords"])
    args = dict(options=h.Options(**kw)) if how == "options" else kw
    with h.File("one.h5", writable=True, **kw) as f:
        f.writes(dict(its))
    if r.random() < 0.5:
        h.writes(dict(its), filename="mod.h5", **args)
    else:
        h.writes({}, filename="mod.h5", **args)
        for p, v in its:
            h.write(v, p, filename="mod.h5", **args)
    expect(tree("one.h5", kw) == tree("mod.h5", kw), f"contents differ for {short(its)}")
    ps = [p for p, _ in its]
    a = h.reads(ps, filename="mod.h5", **args)
    b = [h.read(p, filename="mod.h5", **args) for p in ps]
    expect(isinstance(a, list) and len(a) == len(ps), f"{a!r}")
    for (p, v), x, y in zip(its, a, b):
        expect_same(v, x, f"{p} by reads")
        expect_same(v, y, f"{p} by read")
    expect_raises(KeyError, lambda: h.read("/missing", filename="mod.h5", **args), "missing path")
    expect_raises(OSError, lambda: h.read("/a", filename="nofile.h5", **args), "missing file")
    return repr((how, ps))


def order(r):
    """Spellings of one path in a batch: the last one wins, as with single writes."""
    kw = root_kw(r)
    fn = fresh("batch.h5")
    k = r.choice(["a", "b c"])
    d = {}
    for _ in range(r.choice([2, 3])):
        d[spell(r, k)] = V.scalar(r)
    last = list(d.values())[-1]
    with h.File(fn, writable=True, **kw) as f:
        f.writes(copy.copy(d))
        expect_same(last, f["/" + k], f"{short(d)}")
    return repr(list(d))


KINDS = dict(same_content=same_content, refused=refused, module=module, order=order)
