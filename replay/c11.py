"""C11: complex data encoded, decoded and stored under every recognised pair of names."""
import h5py
import numpy as np

import hdf5storage as h
from hdf5storage import utilities as u

from .base import V, expect, expect_same, short
from .c10 import layout
from .common import fresh

RE, IM = ("r", "re", "real"), ("i", "im", "imag", "imaginary")


def names(r):
    def case(s):
        return "".join(r.choice([c.lower(), c.upper()]) for c in s)

    return case(r.choice(RE)), case(r.choice(IM))


def data(r):
    a = V.plain_array(r, r.choice(["complex64", "complex128"]), V.shape(r))
    if a.size and r.random() < 0.2:
        a = a.astype(a.dtype.newbyteorder())
    return layout(r, a)


def bits(a, b):
    return a.shape == b.shape and a.dtype.newbyteorder("=") == b.dtype.newbyteorder("=") and V.same(
        np.ascontiguousarray(a).astype(a.dtype.newbyteorder("=")), np.ascontiguousarray(b).astype(a.dtype.newbyteorder("=")))


def encode(r):
    a = data(r)
    if r.random() < 0.2 and a.size:
        a = a.flat[0]
    nm = names(r) if r.random() < 0.7 else (V.text(r, 3, mode="a") + "x", V.text(r, 2, mode="u") + "y")
    e = u.encode_complex(a, nm)
    expect(e.dtype.names == nm, f"fields {e.dtype.names} asked for {nm}")
    expect(e.shape == a.shape, f"shape {e.shape} of {a.shape}")
    f = np.float32 if a.dtype.itemsize == 8 else np.float64
    for n, part in zip(nm, (a.real, a.imag)):
        expect(e.dtype[n].newbyteorder("=") == np.dtype(f), f"precision {e.dtype[n]} for {a.dtype}")
        expect(bits(np.asarray(e[n]), np.asarray(part)), f"part {n} of {short(a)}: {short(e[n])}")
    d = u.decode_complex(e) if nm[0].lower() in RE else u.decode_complex(e, nm)
    expect(d.dtype == a.dtype and bits(np.asarray(d), np.asarray(a)), f"{short(a)} under {nm} decoded to {short(d)}")
    swapped = np.zeros(np.shape(e), [(nm[1], e.dtype[nm[1]]), (nm[0], e.dtype[nm[0]])])
    for n in nm:
        swapped[n] = e[n]
    d = u.decode_complex(swapped) if nm[0].lower() in RE else u.decode_complex(swapped, nm)
    expect(bits(np.asarray(d), np.asarray(a)), f"{short(a)} with the fields swapped decoded to {short(d)}")
    return repr((a.dtype.str, a.shape, nm))


def others(r):
    k = r.randrange(7)
    if k == 6:
        nm = list(names(r))
        i = r.randrange(2)
        j = r.randrange(len(nm[i]) + 1)
        nm[i] = r.choice([nm[i] + r.choice("xlm1 _"), r.choice("x_ ") + nm[i], nm[i][:j] + r.choice("zq") + nm[i][j:], nm[i] * 2, nm[i][:-1] or "k"])
        if nm[i].lower() in (RE, IM)[i] or nm[0] == nm[1]:
            return None
        if r.random() < 0.5:
            nm.reverse()
        a = np.zeros(V.shape(r), [(n, "f8") for n in nm])
    elif k == 0:
        a = V.np_array(r, ["num", "S", "U", "object"])
    elif k == 1:
        a = V.fill_struct(r, V.struct_dtype(r), V.shape(r))
        if a.dtype.names == ("r", "i"):
            a = a[["r"]]
    else:
        f = r.choice([("r", "i", "x"), ("r",), ("i",), ("r", "re"), ("im", "i"), ("rr", "ii"), ("x", "i"), ("r", "y"), ("real", "imagin")])
        if k == 2:
            a = np.zeros(V.shape(r), [(n, r.choice(["f4", "f8"])) for n in f])
        elif k == 3:
            a = np.zeros(V.shape(r), [("r", r.choice(["S2", "U2", "O", "c8"])), ("i", r.choice(["f4", "f8", "S3"]))])
        elif k == 4:
            a = np.zeros(V.shape(r), [("r", "f8", (2,)), ("i", "f8")])
        else:
            a = np.zeros((), [(n, "f8") for n in f])[()]
    d = u.decode_complex(a)
    expect(d is a or V.same(d, a), f"{a!r} decoded to {d!r}")
    return repr(a.dtype)


def stored(r):
    kw = dict(matlab_compatible=r.random() < 0.3)
    nm = names(r) if not kw["matlab_compatible"] else ("real", "imag")
    if not kw["matlab_compatible"]:
        kw["complex_names"] = nm
        kw["make_atleast_2d"] = r.choice([True, False])
        kw["reverse_dimension_order"] = r.choice([True, False])
    fn = fresh("c.h5")
    v = r.choice([data(r), complex(V.flt(r), V.flt(r)), np.complex64(complex(1, V.flt(r)))])
    with h.File(fn, writable=True, **kw) as f:
        f["/v"] = v
    if np.size(v):
        with h5py.File(fn, "r") as f:
            dt = f["v"].id.dtype
            t = f["v"].id.get_type()
            got = tuple(t.get_member_name(i).decode() for i in range(t.get_nmembers())) if isinstance(t, h5py.h5t.TypeCompoundID) else dt
            expect(got == nm, f"stored as {got}, asked for {nm}")
    kw["complex_names"] = ("r", "i") if "complex_names" in kw else ("real", "imag")
    with h.File(fn, **kw) as f:
        w = f["/v"]
    if isinstance(v, np.ndarray) and v.dtype.byteorder == ">":
        expect(bits(v, w), f"{short(v)} read back as {short(w)}")
    else:
        expect_same(v, w, "complex")
    return repr((nm, np.shape(v)))


KINDS = dict(encode=encode, others=others, stored=stored)
