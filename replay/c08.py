"""C08: NumPy scalars, arrays, matrices, chararrays, object and structured arrays written and read back under random options."""
import numpy as np

from .base import V, Skip, any_kw, expect_same, has_float16, write_read
from .c07 import short
from .common import fresh


def num_struct(r):
    dt = V.struct_dtype(r, zero=False)

    def bad(d):
        if d.subdtype:
            return bad(d.subdtype[0])
        if d.names:
            return any(bad(d[n]) for n in d.names)
        return d.kind == "S"

    if bad(dt):
        raise Skip
    return V.fill_struct(r, dt, tuple(x or 1 for x in V.shape(r)))


def rt(gen):
    def case(r):
        v = gen(r)
        kw = any_kw(r)
        if kw["matlab_compatible"] and has_float16(v):
            raise Skip
        w = write_read(fresh("n.h5"), v, kw)
        expect_same(v, w, short(kw))
        return f"{type(v).__name__} {v.dtype} {v.shape}"

    return case


def layouts(r):
    a = V.plain_array(r, r.choice(V.NUM + ["S3", "U2"]), V.shape(r, r.choice([1, 2, 3]), zero=r.random() < 0.2))
    k = r.randrange(6)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return a[..., ::-1]
    if k == 2:
        return np.repeat(a, 2, axis=0)[::2]
    if k == 3:
        return a.T
    if k == 4:
        return np.broadcast_to(a, (2,) + a.shape)
    b = a.copy()
    b.flags.writeable = False
    return b


def nulls(r):
    """Text scalars that end in null characters, which NumPy drops when it takes an item of an array."""
    t = V.text(r)[:3] + "\x00" * r.randrange(1, 4)
    if r.random() < 0.5:
        return np.str_(t)
    return np.bytes_(t.encode("utf-8", "replace"))


KINDS = dict(
    nulls=rt(nulls),
    array=rt(V.np_array), scalar=rt(V.np_scalar), layouts=rt(layouts), objects=rt(lambda r: V.np_array(r, ["object"])),
    struct=rt(num_struct), recarray=rt(lambda r: num_struct(r).view(np.recarray)),
    matrix=rt(lambda r: V.np_array(r, ["matrix", "chararray"])),
)
