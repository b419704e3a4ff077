"""C18: what is in files written in MATLAB compatible mode, looked at with h5py only."""
import datetime
import os
from unittest import mock

import h5py
import numpy as np

import hdf5storage as h
from hdf5storage.exceptions import TypeNotMatlabCompatibleError

from .base import V, expect, expect_same, mat_kw
from .common import fresh, supported

CLASS = {"bool": "logical", "float32": "single", "float64": "double", "complex64": "single", "complex128": "double"}


def today(r):
    """Any date at all for the header."""
    when = datetime.datetime(r.choice([1, 99, 1999, 2024, 9999]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60))

    class Date(datetime.datetime):
        @classmethod
        def utcnow(cls):
            return when

        @classmethod
        def now(cls, tz=None):
            return when.replace(tzinfo=tz)

    return mock.patch.object(datetime, "datetime", Date)


def header(r):
    fn = fresh("m.mat")
    kw = dict(matlab_compatible=True)
    how = r.randrange(4)
    extra = {}
    if how == 1:
        with open(fn, "wb") as f:
            f.write(b"\x01junk" * 300)
        extra = dict(truncate_existing=True)
    elif how == 2:
        with h5py.File(fn, "w") as f:
            f["z"] = 1
        extra = dict(truncate_invalid_matlab=True)
    elif how == 3:
        with h.File(fn, writable=True, matlab_compatible=False) as f:
            f["/z"] = 1
    with today(r), h.File(fn, writable=True, **kw, **extra) as f:
        f["/v"] = V.scalar(r)
    b = open(fn, "rb").read()
    with h5py.File(fn, "r") as f:
        ub = f.userblock_size
        left = set(f)
    expect(ub == 512, f"{ub} bytes before the HDF5 data")
    expect(b[:19] == b"MATLAB 7.3 MAT-file", f"header text {b[:30]!r}")
    expect(b[116:128] == bytes.fromhex("00000000 00000000 0002494D".replace(" ", "")), f"header version {b[116:128]!r}")
    expect(all(32 <= c < 127 for c in b[:116]), f"header text {b[:116]!r}")
    expect(b[512:516] == b"\x89HDF", "HDF5 signature")
    expect(("z" in left) == (how == 3), f"variables {left} with {extra}")
    os.remove(fn)
    return f"{how}"


def want_class(dt):
    return CLASS.get(dt.name, dt.name)


def two(shape, oned_as="row"):
    if len(shape) == 0:
        return (1, 1)
    if len(shape) == 1:
        return (1, shape[0]) if oned_as == "row" else (shape[0], 1)
    return tuple(shape)


def look(d, a, one, what):
    """A numeric array as MATLAB has it."""
    expect(d.attrs.get("MATLAB_class") == want_class(a.dtype).encode(), f"class {d.attrs.get('MATLAB_class')} for {a.dtype} {what}")
    shp = two(a.shape, one)
    if a.size == 0:
        expect(d.attrs.get("MATLAB_empty") == 1, f"empty marker {d.attrs.get('MATLAB_empty')} for {a.shape} {what}")
        expect(d.dtype == np.uint64 and tuple(d[()]) == shp, f"stored shape {d[()]} for the empty {a.shape} {what}")
    else:
        expect("MATLAB_empty" not in d.attrs, f"empty marker on {a.shape} {what}")
        expect(d.shape == shp[::-1], f"stored dimensions {d.shape} for {a.shape} {what}")
        if a.dtype.kind == "b":
            expect(d.dtype == np.uint8, f"logical stored as {d.dtype}")
            expect(np.array_equal(d[()].T.reshape(-1), a.reshape(-1)), "logical values")
        elif a.dtype.kind == "c":
            t = d.id.get_type()
            nm = [t.get_member_name(i) for i in range(t.get_nmembers())]
            expect(nm == [b"real", b"imag"], f"complex fields {nm}")
        else:
            expect(d.dtype == a.dtype and V.same(np.ascontiguousarray(d[()].T).reshape(-1), np.ascontiguousarray(a).reshape(-1)), f"values {what}")
    dec = d.attrs.get("MATLAB_int_decode")
    expect((dec == 1 or a.size == 0) if a.dtype.kind == "b" else (dec is None), f"int_decode {dec} for {a.dtype} {what}")


def numeric(r):
    fn = fresh("m.mat")
    kw = mat_kw(r)
    a = V.np_array(r, ["num", "matrix", "scalar"])
    while np.asarray(a).dtype.kind not in "biufc" or not supported(a, kw):
        a = V.np_array(r, ["num", "matrix", "scalar"])
    kw["store_python_metadata"] = r.choice([True, False])
    nest = r.random() < 0.3
    with h.File(fn, writable=True, **kw) as f:
        f["/v"] = {"x": a} if nest else a
    with h5py.File(fn, "r") as f:
        d = f["v/x"] if nest else f["v"]
        if nest:
            expect(f["v"].attrs.get("MATLAB_class") == b"struct", "class of a dict")
            expect([b"".join(x) for x in f["v"].attrs["MATLAB_fields"]] == [b"x"], "fields of a dict")
        look(d, np.asarray(a), kw.get("oned_as", "row"), f"nested={nest}")
        expect(any(k.startswith("Python") for k in d.attrs) == kw["store_python_metadata"], f"attributes {list(d.attrs)}")
    return repr((np.shape(a), np.asarray(a).dtype.str))


def texts(r):
    fn = fresh("m.mat")
    kw = mat_kw(r)
    m = r.choice("atus")
    s = V.text(r, r.choice([0, 1, 4]), mode=m)
    as_bytes = r.random() < 0.4
    v = s.encode("UTF-8") if as_bytes else s
    if as_bytes and r.random() < 0.5:
        v = np.bytes_(v)
    elif r.random() < 0.5 and not as_bytes:
        v = np.str_(v)
    with h.File(fn, writable=True, **kw) as f:
        f["/v"] = v
    with h5py.File(fn, "r") as f:
        d = f["v"]
        expect(d.attrs.get("MATLAB_class") == b"char", f"class {d.attrs.get('MATLAB_class')} of {v!r}")
        if not len(s):
            expect(d.attrs.get("MATLAB_empty") == 1, f"empty marker of {v!r}")
            return "empty"
        expect("MATLAB_empty" not in d.attrs, f"empty marker of {v!r}")
        dec = d.attrs.get("MATLAB_int_decode")
        if as_bytes and not s.isascii():
            expect(d.ndim >= 2 and dec is not None, f"{v!r}: {d}")
        else:
            try:
                units = s.encode("UTF-16LE")
            except UnicodeEncodeError:
                return "surrogate"
            if any(ord(c) > 0xFFFF for c in s):
                expect(d.dtype == np.uint32 and dec == 4 and d[()].tobytes() == s.encode("UTF-32LE"), f"{v!r} stored as {d.dtype} with int_decode {dec}")
                return repr(v)
            expect(d.dtype == np.uint16 and dec == 2, f"{v!r} stored as {d.dtype} with int_decode {dec}")
            expect(d[()].T.tobytes() == units, f"code units of {v!r}")
            n = len(units) // 2
            expect(d.shape == (n, 1), f"dimensions {d.shape} of {v!r}")
    return repr(v)


def others(r):
    fn = fresh("m.mat")
    kw = mat_kw(r)
    o = np.zeros(V.shape(r), object)
    for i in np.ndindex(o.shape):
        o[i] = V.scalar(r)
    cases = [(o, b"cell", o.shape), ([1, "x"], b"cell", (2,)), ((), b"cell", (0,)), ({"a": 1}, b"struct", None), (5, b"int64", ()), (2.5, b"double", ()),
             (True, b"logical", ()), (1j, b"double", ()), (np.zeros(3, [("a", "f8")]), b"struct", None)]
    v, c, shp = r.choice(cases)
    with h.File(fn, writable=True, **kw) as f:
        f["/v"] = v
    with h5py.File(fn, "r") as f:
        d = f["v"]
        expect(d.attrs.get("MATLAB_class") == c, f"class {d.attrs.get('MATLAB_class')} of {v!r}")
        if shp is not None:
            s = two(shp, kw.get("oned_as", "row"))
            if 0 in shp:
                expect(d.attrs.get("MATLAB_empty") == 1 and tuple(d[()]) == s, f"empty {v!r}: {d[()]}")
            else:
                expect(d.shape == s[::-1], f"dimensions {d.shape} of {v!r}")
        if c == b"struct":
            expect([b"".join(x) for x in d.attrs["MATLAB_fields"]] == [b"a"], "fields")
        if c == b"cell" and isinstance(d, h5py.Dataset) and d.attrs.get("MATLAB_empty") != 1:
            for x in d[()].flat:
                t = f[x]
                expect(t.attrs.get("MATLAB_class") is not None and t.attrs.get("H5PATH") == b"/#refs#", f"cell entry {t}: {dict(t.attrs)}")
    return repr((c, shp))


def incompatible(r):
    fn = fresh("m.mat")
    act = r.choice(["ignore", "discard", "error"])
    x = r.choice([np.float16(1.5), np.zeros(3, "f2"), np.zeros((0, 2), "f2")])
    keep = V.scalar(r)
    how = r.choice(["top", "dict", "list", "object", "tuple"])
    if how == "top":
        v = x
    elif how == "dict":
        v = {"a": keep, "b": x}
    else:
        o = np.zeros(2, object)
        o[0], o[1] = keep, x
        v = dict(list=[keep, x], object=o, tuple=(keep, x))[how]
    with h.File(fn, writable=True, matlab_compatible=True, action_for_matlab_incompatible=act) as f:
        f["/first"] = 1
        try:
            f["/v"] = v
            raised = False
        except TypeNotMatlabCompatibleError:
            raised = True
        expect(raised == (act == "error"), f"{act}: raised={raised} for {how}")
        expect_same(1, f["/first"], "the other variable")
        if act == "ignore":
            expect_same(v, f["/v"], f"ignored {how}")
        elif act == "discard" and how == "top":
            expect("/v" not in f, "discarded but there")
        elif act == "discard" and how == "dict":
            expect_same({"a": keep}, f["/v"], "dict with a discarded value")
        elif act == "discard":
            w = f["/v"]
            expect(len(w) == 2 and V.same(keep, w[0]), f"{how} with a discarded value: {w!r}")
            e = w[1]
            expect(isinstance(e, np.ndarray) and e.size == 0, f"{how}: discarded value read as {e!r}")
    return f"{act} {how}"


KINDS = dict(header=header, numeric=numeric, texts=texts, others=others, incompatible=incompatible)
