"""C17: the filters of the stored Datasets against the options."""
import h5py
import numpy as np

import hdf5storage as h

from .base import V, expect, expect_same, mat_kw, plain_kw, storage_kw
from .common import fresh


def options(r, v):
    kw = mat_kw(r) if r.random() < 0.3 else plain_kw(r)
    st = storage_kw(r)
    if kw["matlab_compatible"]:
        st.pop("compression_algorithm")
    kw.update(st)
    n = getattr(v, "nbytes", 64)
    kw["compress_size_threshold"] = r.choice([0, 1, n, n + 1, max(0, n - 1), 2 * n, 4 * n, 10 ** 6])
    return kw


def verify(d, o, what):
    n = d.size * d.dtype.itemsize
    got = (d.compression, d.compression_opts, bool(d.shuffle), bool(d.fletcher32))
    if d.shape == ():
        want = (None, None, False, False)
    elif o.compress and n >= o.compress_size_threshold:
        alg = o.compression_algorithm
        want = (alg, o.gzip_compression_level if alg == "gzip" else None, o.shuffle_filter, o.compressed_fletcher32_filter)
    else:
        want = (None, None, False, o.uncompressed_fletcher32_filter)
    expect(got == want, f"filters {got} instead of {want} for {d.shape} {d.dtype} ({n} bytes, threshold {o.compress_size_threshold}, compress {o.compress}) {what}")


def array(r):
    from .common import supported
    v = _array(r)
    return v if supported(v, {}) else 5.0


def _array(r):
    k = r.randrange(4)
    if k == 0:
        return V.scalar(r)
    if k == 1:
        return np.resize(V.plain_array(r, r.choice(V.NUM), (3,)), r.choice([(10,), (5, 7), (1,), (1, 1)]))
    return V.np_array(r, ["num", "S", "U", "matrix"])


def stored(r, replaced=False):
    fn = fresh("f.h5")
    v = array(r)
    if replaced:
        kw0 = options(r, v)
        with h.File(fn, writable=True, **kw0) as f:
            f["/v"] = v if r.random() < 0.7 else array(r)
        mat = kw0["matlab_compatible"]
        kw = options(r, v)
        while kw["matlab_compatible"] != mat:
            kw = options(r, v)
    else:
        kw = options(r, v)
    with h.File(fn, writable=True, **kw) as f:
        f["/v"] = v
        expect_same(v, f["/v"], "value under filters")
    o = h.Options(**kw)
    with h5py.File(fn, "r") as f:
        if isinstance(f["v"], h5py.Dataset):
            verify(f["v"], o, kw)
    return repr((np.shape(v), kw["compress_size_threshold"], kw["compress"]))


def nested(r):
    fn = fresh("f.h5")
    v = {"a": array(r), "b": [array(r), array(r)], "c": {"d": array(r)}}
    kw = options(r, v["a"])
    with h.File(fn, writable=True, **kw) as f:
        f["/v"] = v
        expect_same(v, f["/v"], "value under filters")
    o = h.Options(**kw)
    grp = o.group_for_references.strip("/")
    with h5py.File(fn, "r") as f:
        def visit(name, d):
            if isinstance(d, h5py.Dataset) and name != grp + "/a":
                verify(d, o, f"{name} {kw}")

        f.visititems(visit)
    return repr((np.shape(v["a"]), kw["compress_size_threshold"]))


KINDS = dict(stored=stored, replaced=lambda r: stored(r, True), nested=nested)
