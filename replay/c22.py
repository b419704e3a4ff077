"""C22: arguments are left as they were, data read is independent of the file."""
import collections
import copy

import numpy as np

import hdf5storage as h

from .base import V, any_kw, expect, expect_same, short
from .c15 import value
from .common import file_bytes, fresh


def snapshot(v):
    """Identity and state of an object and everything in it."""
    out = []

    def go(x, depth=0):
        out.append((id(x), type(x)))
        if isinstance(x, np.ndarray):
            out.append((x.dtype, x.shape, x.strides, x.flags.writeable, x.flags.c_contiguous, type(x)))
            if x.dtype.hasobject and x.dtype.names is None:
                for y in x.flat:
                    go(y)
            elif x.dtype.names is None:
                out.append(x.tobytes())
            else:
                out.append(repr(x.tolist()))
        elif isinstance(x, collections.ChainMap):
            for y in x.maps:
                go(y)
        elif isinstance(x, dict):
            out.append(tuple(x.keys()).__len__())
            for k in x:
                go(k)
                go(x[k])
        elif isinstance(x, (list, tuple, collections.deque, set, frozenset)):
            out.append(len(x))
            for y in x:
                go(y)
        elif isinstance(x, bytearray):
            out.append(bytes(x))
        else:
            out.append(repr(x))

    go(v)
    return out


def written(r):
    kw = any_kw(r)
    v = value(r, kw)
    if isinstance(v, np.ndarray) and r.random() < 0.3 and v.dtype.kind in "biufcSU":
        v = v.copy()
        v.setflags(write=r.choice([True, False]))
    keep = snapshot(v)
    o = h.Options(**kw)
    okeep = {k: getattr(o, k) for k in dir(o) if not k.startswith("_") and k != "marshaller_collection"}
    fn = fresh("i.h5")
    holder = {"/v": v, "/w": v}
    with h.File(fn, writable=True, options=o) as f:
        f["/v"] = v
        expect(snapshot(v) == keep, f"{short(v)} changed by writing it with {kw}")
        f.writes(holder)
        f["/v"] = v
        expect(snapshot(v) == keep, f"{short(v)} changed by writing it again with {kw}")
    expect(list(holder) == ["/v", "/w"] and holder["/v"] is v, "the mapping was changed")
    expect({k: getattr(o, k) for k in okeep} == okeep, "the options were changed")
    return short(v)


def mutate(x):
    if isinstance(x, np.ndarray):
        if x.dtype.hasobject and x.dtype.names is None:
            for y in x.flat:
                mutate(y)
        x.setflags(write=True)
        if x.size and x.dtype.kind in "iufcbSU":
            x[...] = x.dtype.type(1) if x.dtype.kind in "iufcb" else x.dtype.type("Q")
    elif isinstance(x, collections.ChainMap):
        for y in x.maps:
            mutate(y)
    elif isinstance(x, dict):
        for y in x.values():
            mutate(y)
        x["added"] = 1
    elif isinstance(x, (list, collections.deque)):
        for y in x:
            mutate(y)
        x.append("added")
    elif isinstance(x, set):
        x.add("added")
    elif isinstance(x, bytearray):
        x.extend(b"added")
    elif isinstance(x, tuple):
        for y in x:
            mutate(y)


def independent(r):
    kw = any_kw(r)
    v = value(r, kw)
    fn = fresh("i.h5")
    keep = copy.deepcopy(v)
    with h.File(fn, writable=True, **kw) as f:
        f["/v"] = v
        one, two = f["/v"], f["/v"]
        mutate(one)
        expect_same(keep, two, "another read of the same path")
        expect_same(keep, f["/v"], "a later read in the same handle")
    b = file_bytes(fn)
    with h.File(fn, **kw) as f:
        three = f["/v"]
        mutate(three)
        expect_same(keep, f["/v"], "a later read")
    expect_same(keep, two, "data after closing")
    expect(file_bytes(fn) == b, "changing data changed the file")
    # changing what was written changes nothing either
    mutate(v)
    with h.File(fn, **kw) as f:
        expect_same(keep, f["/v"], "a read after changing what was written")
    return short(keep)


KINDS = dict(written=written, independent=independent)
