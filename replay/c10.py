"""C10: string conversions, there and back, over arrays of any shape and layout."""
import numpy as np

from hdf5storage import utilities as u

from .base import V, Skip, expect, expect_same, short


def layout(r, a):
    if a.ndim >= 2 and r.random() < 0.3:
        a = np.asfortranarray(a)
    if a.ndim >= 1 and r.random() < 0.2:
        a = a[::-1]
    if a.ndim >= 1 and r.random() < 0.2:
        a = np.repeat(a, 2, axis=-1)[..., ::2]
    if a.ndim >= 2 and r.random() < 0.2:
        a = a.swapaxes(0, -1)
    return a


def texts(r, bmp=False):
    m = r.choice("atu" if bmp else "atus")
    if not bmp and r.random() < 0.05:
        return V.text(r, 2) + r.choice(["\ud800", "\udfff", "\udc80"]) + V.text(r, 2)
    return V.text(r, r.choice([1, 2, 3, 7]), mode=m)


def uarray(r, bmp=False):
    n = r.choice([1, 2, 5])
    shp = V.shape(r, zero=False)
    m = r.choice("atu" if bmp else "atus")
    a = np.array([V.text(r, r.randrange(n + 1), mode=m) for _ in range(int(np.prod(shp)) or 1)], dtype="U%d" % n).reshape(shp)
    if not bmp and r.random() < 0.1:
        s = list(str(a.flat[0]) or "a")
        s[r.randrange(len(s))] = r.choice(["\ud800", "\udbff", "\udc00", "\udfff", "\udc80"])
        a.flat[0] = "".join(s)
    if not any(a.flat):
        raise Skip
    if r.random() < 0.2:
        a = a.astype(a.dtype.newbyteorder())
    return layout(r, a)


def same_text(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    expect(a.shape == b.shape, f"{what}: shape {a.shape} became {b.shape}")
    expect(all(str(x) == str(y) for x, y in zip(a.flat, b.flat)), f"{what}: {short(a)} became {short(b)}")


def arr(r, bits):
    a = uarray(r)
    before = a.copy()
    if bits == 16:
        if any("\ud800" <= c <= "\udfff" for s in a.flat for c in str(s)):
            try:
                u.convert_numpy_str_to_uint16(a)
            except UnicodeError:
                return repr(a)
            expect(False, f"unrepresentable {short(a)} did not fail")
        d = u.convert_numpy_str_to_uint16(a)
    else:
        d = u.convert_numpy_str_to_uint32(a)
    expect(d.dtype == np.dtype("uint%d" % bits), f"dtype {d.dtype}")
    expect(np.array_equal(a, before), "the argument was changed")
    w = np.atleast_1d(a)
    expect(d.shape[:-1] == w.shape[:-1] and d.shape[-1] % w.shape[-1] == 0, f"shape {d.shape} for {a.shape}")
    n = d.shape[-1] // w.shape[-1]
    if bits == 32:
        expect(n == a.dtype.itemsize // 4, f"{n} code units for each string of {a.dtype}")
    same_text(w, u.convert_to_numpy_str(d, length=n), f"{bits} bit units of {short(a)}")
    # with a layout of its own
    dl = layout(r, d) if d.ndim == 1 else np.asfortranarray(d)
    if dl.ndim > 1:
        same_text(w, u.convert_to_numpy_str(dl, length=n), f"{bits} bit units of {short(a)} in Fortran order")
    back = u.convert_to_numpy_bytes(d, length=n)
    enc = [str(s).encode("UTF-8", "surrogatepass") for s in w.flat]
    expect([bytes(x) for x in back.flat] == enc and back.shape == w.shape, f"UTF-8 of the units of {short(a)}: {short(back)}")
    return repr(a)


def arr32(r):
    a = uarray(r)
    if any("\ud800" <= c <= "\udfff" for s in a.flat for c in str(s)):
        raise Skip
    return _arr(r, a, 32)


def _arr(r, a, bits):
    d = (u.convert_numpy_str_to_uint16 if bits == 16 else u.convert_numpy_str_to_uint32)(a)
    w = np.atleast_1d(a)
    n = d.shape[-1] // w.shape[-1]
    same_text(w, u.convert_to_numpy_str(d, length=n), f"{bits} bit units of {short(a)}")
    return repr(a)


def scalar(r):
    s = texts(r)
    for v in (np.str_(s), np.array(s)):
        d32 = u.convert_numpy_str_to_uint32(v)
        expect(list(d32) == [ord(c) for c in s], f"32 bit units of {s!r}: {d32}")
        expect(u.convert_to_str(d32) == s, f"text of the 32 bit units of {s!r}")
        expect_same(np.str_(s), u.convert_to_numpy_str(d32)[0], "numpy text of 32 bit units")
        try:
            d16 = u.convert_numpy_str_to_uint16(v)
        except UnicodeError:
            expect(any("\ud800" <= c <= "\udfff" for c in s), f"16 bit conversion of {s!r} failed")
            continue
        expect(d16.tobytes() == s.encode("UTF-16LE"), f"16 bit units of {s!r}: {d16}")
        expect(u.convert_to_str(d16) == s, f"text of the 16 bit units of {s!r}")
        expect_same(np.str_(s), u.convert_to_numpy_str(d16)[0], "numpy text of 16 bit units")
        for d in (d16, d32):
            b = u.convert_to_numpy_bytes(d)
            expect(b.shape == (1,) and bytes(b[0]) == s.encode("UTF-8"), f"bytes of units of {s!r}: {b!r}")
    return repr(s)


def forms(r):
    s = texts(r)
    if any("\ud800" <= c <= "\udfff" for c in s):
        raise Skip
    b = s.encode("UTF-8")
    d8 = np.frombuffer(b, np.uint8)
    for x in (s, b, bytearray(b), np.bytes_(b), np.str_(s), np.array(s), np.array(b), d8, d8.reshape(1, -1)):
        if isinstance(x, np.ndarray) and x.dtype.kind in "SU" and x.dtype.itemsize == 0:
            continue
        expect(u.convert_to_str(x) == s, f"str of {x!r}: {u.convert_to_str(x)!r}")
        expect([str(c) for c in np.atleast_1d(u.convert_to_numpy_str(x)).flat] == [s], f"numpy str of {x!r}: {u.convert_to_numpy_str(x)!r}")
        expect([bytes(c) for c in np.atleast_1d(u.convert_to_numpy_bytes(x)).flat] == [b], f"bytes_ of {x!r}: {u.convert_to_numpy_bytes(x)!r}")
    be = np.array([ord(c) for c in s], ">u4")
    expect(u.convert_to_str(be) == s, "big endian 32 bit units")
    be = np.frombuffer(s.encode("UTF-16BE"), ">u2")
    expect(u.convert_to_str(be) == s, "big endian 16 bit units")
    same_text([s], u.convert_to_numpy_str(be), "big endian 16 bit units")
    return repr(s)


def same_type(r):
    s = texts(r)
    a = uarray(r)
    expect(u.convert_to_numpy_str(a) is a, "numpy text array not returned as it is")
    v = np.str_(s)
    expect(u.convert_to_numpy_str(v) is v and u.convert_to_str(s) is s, "text not returned as it is")
    b = V.raw(r)
    v = np.bytes_(b)
    expect(u.convert_to_numpy_bytes(v) is v, "bytes_ not returned as it is")
    c = V.plain_array(r, "S4", V.shape(r))
    expect(u.convert_to_numpy_bytes(c) is c, "bytes_ array not returned as it is")
    n = V.np_array(r, ["num"])
    if n.dtype.kind in "fcbi":
        for f in (u.convert_to_str, u.convert_to_numpy_str, u.convert_to_numpy_bytes):
            for x in (n, 5, None, [b]):
                try:
                    y = f(x)
                except TypeError:
                    continue
                expect(False, f"{f.__name__}({x!r}) gave {y!r}")
    return repr((s, b))


def bytesarr(r):
    """Arrays of UTF-8 encoded text decode elementwise."""
    a = uarray(r)
    if any("\ud800" <= c <= "\udfff" for s in a.flat for c in str(s)):
        raise Skip
    b = u.convert_to_numpy_bytes(a)
    expect(b.shape == a.shape, f"shape {b.shape}")
    expect(all(bytes(x) == str(y).encode("UTF-8") for x, y in zip(b.flat, a.flat)), f"bytes of {a!r}: {b!r}")
    same_text(a, u.convert_to_numpy_str(b), f"text of the bytes of {short(a)}")
    if a.ndim == 0:
        return repr(a)
    n = b.dtype.itemsize
    d = np.ascontiguousarray(b).view(np.uint8).reshape(b.shape[:-1] + (b.shape[-1] * n,))
    same_text(a, u.convert_to_numpy_str(np.asfortranarray(d), length=n), "text of 8 bit units")
    c = u.convert_to_numpy_bytes(np.asfortranarray(d), length=n)
    expect(np.array_equal(c, b), f"8 bit units of {b!r}: {c!r}")
    return repr(a)


KINDS = {"array16": lambda r: arr(r, 16), "array32": arr32, "scalar": scalar, "forms": forms, "same_type": same_type, "bytes": bytesarr}
