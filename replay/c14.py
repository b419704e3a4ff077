"""C14: histories of attribute settings against a plain dictionary."""
import h5py
import numpy as np

from hdf5storage import utilities as u

from .base import V, expect, short
from .common import fresh

NAMES = ["Python.Type", "Python.Fields", "MATLAB_class", "MATLAB_fields", "MATLAB_empty", "H5PATH", "\xe9", "x y"]


def words(r):
    return [V.text(r, r.choice([1, 2, 5]), mode=r.choice("atu")).replace("\x00", "") or "w" for _ in range(r.choice([1, 2, 3]))]


def fields(r):
    ws = [V.text(r, r.choice([1, 2, 3]), mode="a") or "w" for _ in range(r.choice([1, 2, 3]))]
    dt = h5py.special_dtype(vlen=np.dtype("S1"))
    fs = np.empty((len(ws),), dtype=dt)
    for i, s in enumerate(ws):
        fs[i] = np.array([c.encode("ascii") for c in s], dtype="S1")
    return fs


def request(r, name):
    """(kind, value) and what reads back."""
    if name == "MATLAB_fields":
        v = fields(r)
        return ("value", v), ("fields", [b"".join(x.tolist()) for x in v])
    k = r.randrange(5)
    if k == 0:
        w = words(r)
        return ("string_array", r.choice([list, tuple])(w)), ("list", w)
    if k == 1:
        s = words(r)[0]
        v = r.choice([str, np.str_, lambda x: x.encode("UTF-8"), lambda x: np.bytes_(x.encode("UTF-8"))])(s)
        return ("string", v), ("bytes", s.encode("UTF-8"))
    if k == 2:
        v = V.plain_array(r, r.choice(["int64", "uint8", "float64", "uint64", "float32"]), ())[()]
    elif k == 3:
        v = V.plain_array(r, r.choice(["int64", "uint8", "float64", "int16"]), V.shape(r, r.choice([1, 1, 2]), zero=False))
    else:
        v = r.choice([1, 0, -5, 2.5, True])
    return ("value", v), ("value", np.asarray(v))


def reads(a, name, want):
    kind, val = want
    got = a[name]
    if kind == "list":
        return [x if isinstance(x, str) else x.decode() for x in got] == val
    if kind == "bytes":
        return bytes(got) == val
    if kind == "fields":
        return [b"".join(np.asarray(x).tolist()) for x in got] == val
    got = np.asarray(got)
    return got.dtype == val.dtype and got.shape == val.shape and V.same(got, val)


def history(r):
    fn = fresh("a.h5")
    names = r.sample(NAMES, r.choice([2, 3, 5]))
    log = []
    with h5py.File(fn, "w") as f:
        t = f.create_group("g") if r.random() < 0.5 else f.create_dataset("d", data=np.zeros(3))
        model = {}
        for _ in range(r.choice([1, 3, 6])):
            req, new = {}, {}
            for n in r.sample(names, r.randrange(len(names) + 1)):
                if n in model and r.random() < 0.3:
                    req[n], new[n] = model[n]
                else:
                    req[n], new[n] = request(r, n)
            if r.random() < 0.2:
                # something made by other means in between
                n = r.choice(NAMES)
                q, w = request(r, n) if n != "MATLAB_fields" else request(r, "x")
                t.attrs[n] = np.array(q[1], dtype=object) if q[0] == "string_array" else (q[1] if q[0] == "value" else np.bytes_(w[1]))
                if q[0] == "string_array":
                    del t.attrs[n]
                    model.pop(n, None)
                else:
                    model[n] = (q, w)
            discard = r.choice([True, False])
            u.set_attributes_all(t, req, discard)
            model = dict({} if discard else model, **{n: (req[n], new[n]) for n in req})
            log.append((short(req, 80), discard))
            expect(set(t.attrs) == set(model), f"attributes {sorted(t.attrs)} instead of {sorted(model)} after {log}")
            for n in model:
                expect(reads(t.attrs, n, model[n][1]), f"{n!r} is {t.attrs[n]!r} instead of {model[n][1]} after {log}")
    return repr(log)


KINDS = dict(history=history)
