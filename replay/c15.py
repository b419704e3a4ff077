"""C15: histories of writes and deletions against a dictionary of the last values."""
import hdf5storage as h

from .base import V, any_kw, expect, expect_raises, expect_same, short
from .common import fresh, supported

PATHS = ["/x", "/y", "/p/x", "/p/y", "/q/r/s", "/p/.x2e", "/z z"]
SAME = ("matlab_compatible", "reverse_dimension_order", "group_for_references", "complex_names")


def value(r, kw):
    for _ in range(9):
        k = r.randrange(5)
        v = V.scalar(r) if k == 0 else V.np_array(r, ["num", "S", "U", "object", "struct", "recarray", "matrix", "chararray"]) if k < 3 else V.container(r) if k == 3 else V.leaf(r)
        if getattr(getattr(v, "dtype", None), "names", None) is not None and (v.size == 0 or not small_struct(v)):
            continue
        if supported(v, kw):
            return v
    return 5


def small_struct(v):
    from hdf5storage import utilities as u
    import numpy as np

    return not u.does_dtype_have_a_zero_shape(v.dtype) and not any(np.dtype(v.dtype[n]).base.kind in "SV" for n in v.dtype.names)


def phases(r):
    kw = any_kw(r)
    kw["delete_unused_variables"] = True
    while True:
        yield kw
        new = any_kw(r)
        while new.get("matlab_compatible") != kw.get("matlab_compatible"):
            new = any_kw(r)
        for k in SAME:
            new.pop(k, None)
            if k in kw:
                new[k] = kw[k]
        new["delete_unused_variables"] = True
        kw = new


def history(r, variants=True, single=False):
    fn = fresh("w.h5")
    model, log = {}, []
    paths = [r.choice(PATHS)] if single else r.sample(PATHS, 3)
    ph = phases(r)
    kw = next(ph)
    for _ in range(r.choice([1, 2, 3])):
        with h.File(fn, writable=True, **kw) as f:
            for _ in range(r.choice([1, 2, 4])):
                p = r.choice(paths)
                if p in model and r.random() < 0.2:
                    del f[p]
                    del model[p]
                    log.append("del " + p)
                    expect_raises(KeyError, lambda: f[p], f"read of the deleted {p} after {log}")
                    expect(p not in f, f"{p} still there after {log}")
                else:
                    if p in model and r.random() < 0.5:
                        v = like(r, model[p])
                        if not supported(v, kw):
                            v = value(r, kw)
                    else:
                        v = value(r, kw)
                    f[p] = v
                    model[p] = v
                    log.append(f"{p}={short(v, 90)}")
                q = r.choice(list(model) or [None])
                if q is not None:
                    expect_same(model[q], f[q], f"{q} after {log} {kw}")
        if variants:
            kw = next(ph)
        with h.File(fn, **kw) as f:
            for q in paths:
                expect((q in f) == (q in model), f"membership of {q} after {log}")
            for q in model:
                expect_same(model[q], f[q], f"{q} in the file opened again after {log}")
    return repr(log)


def near(r, v):
    """A value that differs in type, order of bytes, shape or container, but is stored alike."""
    import collections

    import numpy as np

    if isinstance(v, np.ndarray) and type(v) in (np.ndarray, np.matrix) and v.dtype.kind in "biufc" and v.size:
        k = r.randrange(6)
        if k == 0 and v.dtype.kind in "iufc":
            return v.astype(v.dtype.newbyteorder())
        if k == 1 and v.dtype.kind in "iu":
            return v.view(v.dtype.str.replace("i", "I").replace("u", "i").replace("I", "u"))
        if k == 2 and v.dtype.kind in "iu" and v.dtype.itemsize in (4, 8):
            return (v % 1000).astype(f"{v.dtype.str[0]}f{v.dtype.itemsize}")
        if k == 3:
            return np.asarray(v).ravel() if v.ndim > 1 else np.asarray(v).reshape(1, -1)
        if k == 4 and v.ndim == 2:
            return np.asarray(v).T.copy() if type(v) is np.matrix or r.random() < 0.5 else np.asmatrix(v)
        if v.ndim == 0 or v.size == 1:
            return v.flat[0] if isinstance(v.flat[0], np.generic) else None
        return None
    if isinstance(v, np.generic) and v.dtype.kind in "biufc":
        return np.asarray(v) if r.random() < 0.5 else v.astype("f8") if v.dtype.kind in "iub" else None
    if type(v) is np.ndarray and v.dtype.kind in "SU" and v.dtype.itemsize:
        n = v.dtype.itemsize // (4 if v.dtype.kind == "U" else 1)
        return v.astype(f"{v.dtype.kind}{n + r.choice([1, 2])}")
    if type(v) in (bool, int):
        return r.choice([float, np.int64, int, bool])(v) if abs(v) < 2**53 else None
    if type(v) is str and v.isascii():
        return r.choice([v.encode(), bytearray(v.encode()), np.str_(v)])
    if type(v) in (list, tuple):
        return collections.deque(v) if r.random() < 0.3 else tuple(v) if type(v) is list else list(v)
    if type(v) is dict:
        return collections.OrderedDict(reversed(v.items()))
    return None


def like(r, v):
    """Another value of the same kind: overwriting in place."""
    import numpy as np

    if r.random() < 0.5:
        w = near(r, v)
        if w is not None:
            return w
    if isinstance(v, np.ndarray) and v.dtype.kind in "biufcSU" and type(v) is np.ndarray:
        w = v.copy()
        if w.size:
            w.flat[r.randrange(w.size)] = w.flat[r.randrange(w.size)]
        if w.ndim and r.random() < 0.3:
            w = w[: max(1, w.shape[0] - 1)]
        return w
    if isinstance(v, dict) and type(v) is dict:
        w = dict(v)
        if w and r.random() < 0.5:
            w.pop(r.choice(list(w)))
        if r.random() < 0.5:
            w[V.text(r, 2, mode="t")] = 3
        return w
    if isinstance(v, list):
        return v[:-1] + [1] if r.random() < 0.5 else v + [None]
    if isinstance(v, (str, bytes)):
        return v[:-1]
    if type(v) is int:
        return -v
    return v


KINDS = dict(history=history, same_options=lambda r: history(r, False), one_path=lambda r: history(r, True, True))
