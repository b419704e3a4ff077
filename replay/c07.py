"""C07: Python scalars and strings written and read back under random options."""
import os

from .base import V, Skip, any_kw, expect_same, has_float16, plain_kw, write_read
from .common import fresh


def rt(gen):
    def case(r):
        v = gen(r)
        kw = any_kw(r)
        fn = fresh("s.h5")
        w = write_read(fn, v, kw)
        expect_same(v, w, f"{short(kw)}")
        return repr(v)

    return case


def short(kw):
    return ",".join(f"{k}={v}" for k, v in kw.items())


def floats(r):
    import struct
    k = r.randrange(3)
    if k == 0:
        return V.flt(r)
    if k == 1:
        return struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
    return complex(V.flt(r), V.flt(r))


def ints(r):
    b = r.choice([1, 7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 1000])
    return r.choice([1, -1]) * (2 ** b + r.choice([-1, 0, 1]))


def texts(r):
    s = V.text(r, r.choice([0, 1, 2, 5, 40])) + r.choice(["", "", "\x00", "\x00\x00", "\ufeff", "\ud800", "\U0001f600"])
    return r.choice(["", "\ufeff", "\x00", "\udfff"])[: r.randrange(2)] + s


def byts(r):
    b = V.raw(r, r.choice([0, 1, 3, 30])) + r.choice([b"", b"\x00", b"\xff\x00", b"\x00\x00"])
    return r.choice([bytes, bytearray])(b)


def reused(r):
    """The same path holding different values one after another."""
    import hdf5storage as h
    kw = any_kw(r)
    fn = fresh("s.h5")
    vs = [V.scalar(r) for _ in range(3)]
    with h.File(fn, writable=True, **kw) as f:
        for v in vs:
            f["/v"] = v
            expect_same(v, f["/v"], short(kw))
    return repr(vs)


KINDS = dict(scalar=rt(V.scalar), floats=rt(floats), ints=rt(ints), texts=rt(texts), bytes=rt(byts), reused=reused)
del os, Skip, has_float16, plain_kw
