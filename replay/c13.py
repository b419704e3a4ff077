"""C13: random dtypes against the recursive definition."""
import numpy as np

from hdf5storage import utilities as u

from .base import V, Skip, expect
from .c12 import dtype


def zero(d):
    if d.subdtype is not None:
        return 0 in d.shape or zero(d.subdtype[0])
    if d.names is not None:
        return any(zero(d.fields[n][0]) for n in d.names)
    return False


def rnd(r, depth=0):
    try:
        return _rnd(r, depth)
    except ValueError:
        raise Skip from None


def _rnd(r, depth):
    if depth < 4 and r.random() < 0.6:
        if r.random() < 0.5:
            return np.dtype((rnd(r, depth + 1), tuple(r.choice([1, 2, 1, 0 if r.random() < 0.3 else 3]) for _ in range(r.choice([1, 1, 2, 3])))))
        return np.dtype([("f%d" % i, rnd(r, depth + 1)) for i in range(r.choice([1, 2, 3]))])
    return np.dtype(r.choice(V.NUM + ["S3", "U0", "V0", "O", "S0"]))


def check(r, d):
    for x in (d, d.newbyteorder()):
        got = u.does_dtype_have_a_zero_shape(x)
        expect(got is zero(x) or got == zero(x), f"{x!r}: {got}")
    return repr(d)


KINDS = dict(nested=lambda r: check(r, rnd(r)), varied=lambda r: check(r, dtype(r)))
