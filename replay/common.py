"""Helpers shared by the bounded modules that look into files."""
import os

import h5py
import numpy as np

import hdf5storage as h

from .base import V


def fresh(name):
    if os.path.exists(name):
        os.remove(name)
    return name


def raw_tree(fn, skip=None):
    """Everything in a file as plain comparable data (references resolved to a marker)."""
    out = {}

    def val(v):
        if isinstance(v, np.ndarray):
            if v.dtype.kind == "O" or h5py.check_dtype(ref=v.dtype) is not None:
                return ("refs", v.shape, tuple(str(x)[:0] for x in v.flat))
            return (v.dtype.str, v.shape, v.tobytes())
        return (type(v).__name__, repr(v))

    with h5py.File(fn, "r") as f:
        def visit(name, o):
            a = {k: val(o.attrs[k]) for k in o.attrs if o.attrs.get_id(k).dtype.kind != "O"}
            if isinstance(o, h5py.Dataset):
                out[name] = (o.dtype.str, o.shape, val(o[()]), tuple(sorted(a.items())))
            else:
                out[name] = ("group", tuple(sorted(a.items())))

        f.visititems(visit)
    if skip:
        out = {k: v for k, v in out.items() if not (k == skip or k.startswith(skip + "/"))}
    return out


def file_bytes(fn):
    with open(fn, "rb") as f:
        return f.read()


def small(r):
    return r.choice([V.scalar, V.np_scalar, lambda q: V.np_array(q, ["num", "S", "U"]), lambda q: V.container(q)])(r)


def supported(v, kw):
    from .base import has_float16

    return not (kw.get("matlab_compatible", True) and has_float16(v))


__all__ = ["fresh", "raw_tree", "file_bytes", "small", "supported", "h", "np", "h5py"]
