"""Seeded generators of Python/NumPy values and a strict equality.

Only the public data model is used; nothing here looks at hdf5storage
internals, so refactorings of the repository cannot disturb it.
"""
from __future__ import annotations

import collections
import datetime
import fractions
import math
import struct
import warnings

import numpy as np

warnings.simplefilter("ignore")

INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
FLOATS = ["float16", "float32", "float64"]
COMPLEX = ["complex64", "complex128"]
NUM = ["bool"] + INTS + FLOATS + COMPLEX


def fbits(x):
    return "nan" if math.isnan(x) else struct.pack("<d", x)


def same(a, b, why=None, path="$"):
    """Strict equality: type, dtype, shape, container and value."""

    def no(msg):
        if why is not None:
            why.append(path + ": " + msg)
        return False

    if type(a) is not type(b):
        return no(f"type {type(a)!r} vs {type(b)!r}")
    if isinstance(a, np.dtype):
        return a == b or no(f"dtype {a} vs {b}")
    if isinstance(a, (np.ndarray, np.generic)):
        if isinstance(a, (np.bytes_, np.str_)):
            return (a == b and len(a) == len(b)) or no(f"{a!r} vs {b!r}")
        if a.dtype != b.dtype:
            return no(f"dtype {a.dtype} vs {b.dtype}")
        if a.shape != b.shape:
            return no(f"shape {a.shape} vs {b.shape}")
        if a.dtype.hasobject:
            if a.dtype.names is not None:
                return all(
                    same(np.asarray(a[n]), np.asarray(b[n]), why, path + "." + n)
                    for n in a.dtype.names
                )
            fa, fb = np.asarray(a), np.asarray(b)
            return all(
                same(fa[i], fb[i], why, f"{path}{list(i)}")
                for i in np.ndindex(fa.shape)
            )
        return _same_plain(np.asarray(a), np.asarray(b)) or no(f"{a!r} vs {b!r}")
    if isinstance(a, float):
        return fbits(a) == fbits(b) or no(f"{a!r} vs {b!r}")
    if isinstance(a, complex):
        return (
            fbits(a.real) == fbits(b.real) and fbits(a.imag) == fbits(b.imag)
        ) or no(f"{a!r} vs {b!r}")
    if isinstance(a, collections.ChainMap):
        return same(list(a.maps), list(b.maps), why, path + ".maps")
    if isinstance(a, dict):
        if len(a) != len(b):
            return no(f"{len(a)} items vs {len(b)}: {a!r} vs {b!r}")
        for (ka, va), (kb, vb) in zip(a.items(), b.items()):
            if not same(ka, kb, why, path + ".key"):
                return False
            if not same(va, vb, why, f"{path}[{ka!r}]"):
                return False
        return True
    if isinstance(a, (list, tuple, collections.deque)):
        if len(a) != len(b):
            return no(f"length {len(a)} vs {len(b)}")
        return all(same(x, y, why, f"{path}[{i}]") for i, (x, y) in enumerate(zip(a, b)))
    if isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            return no(f"size {len(a)} vs {len(b)}")
        rest = list(b)
        for x in a:
            for i, y in enumerate(rest):
                if same(x, y):
                    del rest[i]
                    break
            else:
                return no(f"element {x!r} missing from {b!r}")
        return True
    if isinstance(a, slice):
        return same((a.start, a.stop, a.step), (b.start, b.stop, b.step), why, path)
    if isinstance(a, range):
        return same((a.start, a.stop, a.step), (b.start, b.stop, b.step), why, path)
    if isinstance(a, (datetime.datetime, datetime.time)):
        return (
            a.replace(tzinfo=None) == b.replace(tzinfo=None)
            and same(a.tzinfo, b.tzinfo, why, path + ".tzinfo")
        ) or no(f"{a!r} vs {b!r}")
    if isinstance(a, datetime.timezone):
        return repr(a) == repr(b) or no(f"{a!r} vs {b!r}")
    return a == b or no(f"{a!r} vs {b!r}")


def _same_plain(a, b):
    if a.dtype.names is not None:
        return all(_same_plain(a[n], b[n]) for n in a.dtype.names)
    if a.dtype.kind == "c":
        return _same_plain(a.real, b.real) and _same_plain(a.imag, b.imag)
    if a.dtype.kind == "f":
        na, nb = np.isnan(a), np.isnan(b)
        return (
            np.array_equal(na, nb)
            and np.array_equal(a[~na], b[~nb])
            and np.array_equal(np.signbit(a[~na]), np.signbit(b[~nb]))
        )
    return np.array_equal(a, b)


# ---------------------------------------------------------------- generators
ASCII = "abcXYZ019 _-\"'%#~"
TRICKY = "./\\x2u\x01\x7f"
UNI = "\xe9\u03b1\u20ac\ud7ff\ue000\uffff"
ASTRAL = "\U00010000\U0001f600\U0010ffff"


def text(r, n=None, alphabet=None, mode=None):
    if n is None:
        n = r.choice([0, 1, 1, 2, 3, 5, 9])
    if alphabet is None:
        mode = mode or r.choice(["a", "a", "t", "u", "s", "z"])
        alphabet = {
            "a": ASCII,
            "t": ASCII[:4] + TRICKY,
            "u": ASCII[:4] + UNI,
            "s": ASCII[:4] + UNI + ASTRAL,
            "z": ASCII[:3] + "\x00" + UNI[:2],
        }[mode]
    s = "".join(r.choice(alphabet) for _ in range(n))
    return s.rstrip("\x00")


def raw(r, n=None):
    if n is None:
        n = r.choice([0, 1, 2, 3, 7])
    m = r.choice(["a", "b", "z"])
    if m == "a":
        return bytes(r.choice(b"abcXYZ01 ./\\") for _ in range(n))
    if m == "z":
        return bytes(r.choice(b"ab\x00\x01") for _ in range(n)).rstrip(b"\x00")
    return bytes(r.randrange(256) for _ in range(n)).rstrip(b"\x00")


def flt(r):
    return r.choice(
        [0.0, -0.0, 1.0, -1.5, float("nan"), float("inf"), float("-inf"), 5e-324, 1e308, r.uniform(-10, 10)]
    )


def pyint(r):
    return r.choice(
        [
            0, 1, -1, 7, 255, 256, -128, 2**31, 2**63 - 1, -(2**63), 2**63, -(2**63) - 1, 2**64, 10**30, -(10**25),
            r.randrange(-1000, 1000), r.getrandbits(100),
        ]
    )


def scalar(r):
    k = r.randrange(10)
    if k == 0:
        return r.choice([True, False])
    if k <= 2:
        return pyint(r)
    if k == 3:
        return flt(r)
    if k == 4:
        return complex(flt(r), flt(r))
    nul = r.choice([0, 0, 0, 1, 2])
    if k == 5:
        return text(r) + "\x00" * nul
    if k == 6:
        return raw(r) + b"\x00" * nul
    if k == 7:
        return bytearray(raw(r) + b"\x00" * nul)
    return r.choice([None, ..., NotImplemented, None])


def shape(r, ndim=None, zero=True):
    if ndim is None:
        ndim = r.choice([0, 1, 1, 2, 2, 3, 4])
    return tuple(r.choice(([0] if zero else []) + [1, 1, 2, 3]) for _ in range(ndim))


def plain_array(r, dt, shp):
    n = int(np.prod(shp)) if shp else 1
    if dt == "bool":
        v = [r.choice([True, False]) for _ in range(n)]
        return np.array(v, dtype=dt).reshape(shp)
    if dt in INTS:
        i = np.iinfo(dt)
        v = [r.choice([i.min, i.max, 0, 1, r.randrange(i.min, i.max + 1)]) for _ in range(n)]
        return np.array(v, dtype=dt).reshape(shp)
    if dt in FLOATS:
        return np.array([flt(r) for _ in range(n)], dtype=dt).reshape(shp)
    if dt in COMPLEX:
        return np.array([complex(flt(r), flt(r)) for _ in range(n)], dtype=dt).reshape(shp)
    if dt[0] == "S":
        return np.array([raw(r, r.randrange(int(dt[1:]) + 1)) for _ in range(n)], dtype=dt).reshape(shp)
    if dt[0] == "U":
        m = r.choice("atus")
        return np.array([text(r, r.randrange(int(dt[1:]) + 1), mode=m) for _ in range(n)], dtype=dt).reshape(shp)
    raise AssertionError(dt)


def struct_dtype(r, depth=0, zero=True, nul=False):
    names = ["r", "i"] if depth == 0 and r.random() < 0.1 else []
    for _ in range(0 if names else r.choice([1, 2, 3])):
        nm = text(r, r.choice([1, 2, 4]), mode=r.choice(["a", "a", "t", "u"])) or "f"
        if nm not in names:
            names.append(nm)
    fs = []
    for nm in names:
        if depth < 1 and r.random() < 0.15:
            d = struct_dtype(r, depth + 1, zero=False)
        else:
            d = np.dtype(r.choice(INTS if nm == "r" else NUM + ["S3"]))
        if r.random() < 0.3:
            fs.append((nm, d, shape(r, r.choice([1, 2]), zero=zero and r.random() < 0.3)))
        else:
            fs.append((nm, d))
    return np.dtype(fs)


def fill_struct(r, dt, shp):
    a = np.zeros(shp, dtype=dt)
    for n in dt.names:
        f = dt[n]
        base, sub = (f.subdtype if f.subdtype is not None else (f, ()))
        full = tuple(shp) + tuple(sub)
        if base.names is not None:
            a[n] = fill_struct(r, base, full)
        else:
            nm = base.name if base.kind not in "SU" else base.str[1:]
            a[n] = plain_array(r, nm, full)
    return a


def np_scalar(r, dts=None):
    dt = r.choice(dts or (NUM + ["S5", "U4"]))
    if dt == "S5":
        return np.bytes_(raw(r))
    if dt == "U4":
        return np.str_(text(r))
    return plain_array(r, dt, ())[()]


def np_array(r, kinds=None):
    k = r.choice(kinds or ["num", "num", "num", "S", "U", "matrix", "chararray", "scalar", "scalar"])
    if k == "scalar":
        return np_scalar(r)
    if k == "num":
        a = plain_array(r, r.choice(NUM), shape(r))
    elif k == "S":
        a = plain_array(r, "S%d" % r.choice([1, 2, 5]), shape(r))
    elif k == "U":
        a = plain_array(r, "U%d" % r.choice([1, 2, 5]), shape(r))
    elif k == "matrix":
        return np.matrix(plain_array(r, r.choice(NUM), shape(r, 2)))
    elif k == "chararray":
        return plain_array(r, r.choice(["S3", "U3", "S1", "U1"]), shape(r, r.choice([1, 2, 3]))).view(np.chararray)
    elif k == "object":
        a = np.zeros(shape(r), dtype=object)
        for i in np.ndindex(a.shape):
            a[i] = scalar(r)
        return a
    elif k == "struct":
        return fill_struct(r, struct_dtype(r), shape(r))
    elif k == "recarray":
        return fill_struct(r, struct_dtype(r), shape(r, r.choice([1, 2]))).view(np.recarray)
    else:
        raise AssertionError(k)
    if a.ndim >= 2 and r.random() < 0.3:
        a = np.asfortranarray(a)
    if k == "num" and a.size and r.random() < 0.15:
        a = a.astype(a.dtype.newbyteorder())
    if a.ndim >= 1 and r.random() < 0.1 and a.shape[0] > 1:
        a = a[::-1]
    if a.ndim >= 1 and r.random() < 0.1:
        a = np.repeat(a, 2, axis=-1)[..., ::2]
    if a.ndim >= 2 and r.random() < 0.1:
        a = a.swapaxes(0, -1)
    if k in ("num", "S", "U") and r.random() < 0.05:
        a.setflags(write=False)
    return a


def hashable(r):
    k = r.randrange(8)
    if k <= 1:
        return text(r)
    if k == 2:
        return raw(r)
    if k == 3:
        return pyint(r)
    if k == 4:
        return (pyint(r), text(r))
    if k == 5:
        return frozenset([pyint(r), pyint(r)])
    if k == 6:
        return r.choice([1.5, -2.25, None, ...])
    return r.choice([True, 2.5, b"k", "k", fractions.Fraction(r.randrange(-9, 9), r.randrange(1, 9))])


def str_key(r, kinds="tbUS"):
    k = r.choice(kinds)
    s = text(r, mode=r.choice(["a", "a", "t", "u", "s"])) or "k"
    if k == "t":
        return s
    if k == "b":
        return s.encode("utf-8")
    if k == "U":
        return np.str_(s)
    return np.bytes_(s.encode("utf-8"))


def dt_obj(r):
    k = r.randrange(5)
    td = datetime.timedelta(days=r.randrange(-5, 999), seconds=r.randrange(86400), microseconds=r.randrange(10**6))
    off = datetime.timedelta(minutes=r.randrange(-1439, 1440))
    tz = r.choice(
        [None, datetime.timezone.utc, datetime.timezone(off), datetime.timezone(off, text(r, 4, mode="a") or "z")]
    )
    if k == 0:
        return td
    if k == 1:
        return tz if tz is not None else datetime.timezone.utc
    if k == 2:
        return datetime.date(r.randrange(1, 10000), r.randrange(1, 13), r.randrange(1, 29))
    if k == 3:
        return datetime.time(r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(10**6), tzinfo=tz)
    return datetime.datetime(
        r.randrange(1, 10000), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60),
        r.randrange(10**6), tzinfo=tz,
    )


def leaf(r):
    return r.choice([scalar, scalar, np_scalar, lambda q: np_array(q, ["num", "S", "U"])])(r)


def big_container(r, n):
    v = [r.choice([i, -i, str(i), i / 2]) for i in range(n)]
    k = r.randrange(6)
    if k < 3:
        keys = [f"k{i}" if k else i for i in range(n)]
        r.shuffle(keys)
        return r.choice([dict, collections.OrderedDict])(zip(keys, v))
    if k == 3:
        return collections.Counter({f"k{i}": i for i in range(n)})
    return r.choice([list, tuple, collections.deque])(v)


def container(r, depth=0, kinds=None):
    def el():
        if depth < 2 and r.random() < 0.3:
            return container(r, depth + 1)
        return leaf(r)

    n = r.choice([0, 1, 1, 2, 3, 4])
    if depth == 0 and r.random() < 0.03:
        return big_container(r, r.choice([12, 33, 70, 140]))
    k = r.choice(
        kinds
        or ["list", "tuple", "deque", "set", "frozenset", "dict", "dict", "odict", "kvdict", "counter", "chainmap",
            "slice", "range", "dt", "fraction", "dtype"]
    )
    if k == "list":
        return [el() for _ in range(n)]
    if k == "tuple":
        return tuple(el() for _ in range(n))
    if k == "deque":
        return collections.deque(el() for _ in range(n))
    if k == "set":
        return {hashable(r) for _ in range(n)}
    if k == "frozenset":
        return frozenset(hashable(r) for _ in range(n))
    if k == "dict":
        return {str_key(r): el() for _ in range(n)}
    if k == "odict":
        return collections.OrderedDict((str_key(r), el()) for _ in range(n))
    if k == "kvdict":
        return {hashable(r): el() for _ in range(n)}
    if k == "counter":
        return collections.Counter({(str_key(r) if r.random() < 0.5 else hashable(r)): r.randrange(-3, 9) for _ in range(n)})
    if k == "chainmap":
        return collections.ChainMap(*[{str_key(r, "t"): el() for _ in range(r.randrange(3))} for _ in range(max(1, n))])
    if k == "slice":
        return slice(*[r.choice([None, r.randrange(-9, 9), el()]) for _ in range(3)])
    if k == "range":
        return range(pyint(r), pyint(r), r.choice([1, -1, 3, 2**70]))
    if k == "dt":
        return dt_obj(r)
    if k == "fraction":
        return fractions.Fraction(pyint(r), r.choice([1, 3, 7, 2**70]))
    if k == "dtype":
        return r.choice([lambda: np.dtype(r.choice(NUM + ["S4", "U3", "O"])), lambda: struct_dtype(r)])()
    raise AssertionError(k)
