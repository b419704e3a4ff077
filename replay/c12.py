"""C12: dtypes to text and back."""
import numpy as np

from hdf5storage import Marshallers as M
from hdf5storage import utilities as u
import hdf5storage as h

from .base import V, Skip, expect, expect_same
from .common import fresh


def dtype(r, depth=0):
    """A random dtype (the flexible ones of no size have no sub-arrays)."""
    try:
        return _dtype(r, depth)
    except ValueError:
        raise Skip from None


def _dtype(r, depth):
    k = r.random()
    if depth < 3 and k < 0.4:
        fs, seen = [], set()
        for _ in range(r.choice([1, 2, 3])):
            nm = V.text(r, r.choice([1, 2, 5]), mode=r.choice("atu")) or "q"
            if r.random() < 0.2:
                nm = r.choice(["'", '"', "\\", "a'b", "\n", "[", ")", "{", "f0", " "])
            if nm in seen:
                continue
            seen.add(nm)
            d = dtype(r, depth + 1)
            fs.append((nm, d, V.shape(r, r.choice([1, 2]))) if r.random() < 0.2 else (nm, d))
        d = np.dtype(fs, align=depth == 0 and all(x[1].names is None and x[1].subdtype is None for x in fs) and r.random() < 0.1)
        if r.random() < 0.1 and depth == 0:
            off = np.cumsum([0] + [d[n].itemsize + r.randrange(3) for n in d.names])
            d = np.dtype(dict(names=list(d.names), formats=[d[n] for n in d.names], offsets=[int(x) for x in off[:-1]], itemsize=int(off[-1]) + r.randrange(3)))
        return d
    if depth < 3 and k < 0.5:
        return np.dtype((dtype(r, depth + 1), V.shape(r, r.choice([1, 2]))))
    d = np.dtype(r.choice(V.NUM + ["S5", "U3", "float16", "S", "U", "O", "V3", "S1"]))
    if r.random() < 0.3:
        d = d.newbyteorder()
    return d


def text(r):
    d = dtype(r)
    s = u.convert_dtype_to_str(d)
    b = M.NumpyDtypeMarshaller
    expect(isinstance(s, str), f"{s!r}")
    got = back(s)
    expect(got == d and got.names == d.names, f"{d!r} became {s!r} and then {got!r}")
    del b
    return s


def back(s):
    """What the dtype marshaller makes of the text (through a file)."""
    import ast
    return np.dtype(ast.literal_eval(s)) if not hasattr(u, "convert_str_to_dtype") else u.convert_str_to_dtype(s)


def stored(r):
    d = dtype(r)
    kw = dict(matlab_compatible=r.choice([True, False]))
    fn = fresh("d.h5")
    with h.File(fn, writable=True, **kw) as f:
        f["/d"] = d
        f["/l"] = [d, 1]
    with h.File(fn, **kw) as f:
        got = f["/d"]
        expect(isinstance(got, np.dtype) and got == d and got.names == d.names, f"{d!r} read back as {got!r}")
        expect_same([d, 1], f["/l"], "list with a dtype")
    return repr(d)


BAD = ["__import__('os').system('touch pwned')", "1+1", "abc", "('f8'", "open('pwned','w')", "[('a','f8'),__import__('os')]", "'f8' if 1 else 'f4'",
       "lambda: 0", "{'names':['a']}", "'zz9'", "['f8'", "f'{1}'", "np.float64", "(int)", "''.join(['f8'])", "float", "'f8';'f8'", "3", "b'f8'",
       "[n for n in ('f8',)][0]", "'f%d' % 8", "().__class__ and 'f8'", "'f8'.lower()", "('f8', 'f4')[0]", "max('f4', 'f8')", "'f8' or 1",
       "[('a', 'f' + '8')]", "[('a', 'f8', 1 << 1)]", "None if 0 else 'f8'", "{'names': ['a'], 'formats': list(['f8'])}", "(lambda: 'f8')()", "True and 'f8'"]


def bad(r):
    import os
    s = r.choice(BAD)
    fn = fresh("b.h5")
    with h.File(fn, writable=True, matlab_compatible=False) as f:
        f["/d"] = np.dtype("f8")
    import h5py
    with h5py.File(fn, "r+") as f:
        a = dict(f["d"].attrs)
        del f["d"]
        f.create_dataset("d", data=np.array([ord(c) for c in s], "u4"))
        a["Python.numpy.UnderlyingType"] = np.bytes_("bytes%d" % (8 * len(s)))
        for k, v in a.items():
            f["d"].attrs[k] = v
    with h.File(fn, matlab_compatible=False) as f:
        try:
            v = f["/d"]
        except Exception:
            v = None
        else:
            expect(s == "b'f8'" and v == np.dtype("f8"), f"text {s!r} gave {v!r}")
    expect(not os.path.exists("pwned"), f"text {s!r} was evaluated")
    for x in (None, 5, "f8", np.float64):
        try:
            u.convert_dtype_to_str(x)
        except TypeError:
            continue
        expect(False, f"{x!r} taken for a dtype")
    return s


KINDS = dict(text=text, stored=stored, bad=bad)
