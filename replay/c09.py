"""C09: nested containers written and read back under random options."""
import collections
import fractions

from .base import V, Skip, any_kw, expect_same, has_float16, write_read
from .c07 import short
from .common import fresh


def rt(gen):
    def case(r):
        v = gen(r)
        kw = any_kw(r)
        if kw["matlab_compatible"] and has_float16(v):
            raise Skip
        w = write_read(fresh("c.h5"), v, kw)
        expect_same(v, w, short(kw))
        return repr(v)[:300]

    return case


def keys(r):
    """Keys around escaping and clashing."""
    d = {}
    for _ in range(r.randrange(1, 6)):
        k = r.choice(["/", ".", "..", "a/b", "\\", "\\x41", "\x00", "a\x00", "", "keys", "values", "k", "a", "\u00e9", "x" * 300, "a\\", ".\\x2e"])
        if r.random() < 0.3:
            k = k.encode("utf-8")
        d[k] = r.choice([1, "x", None, [1], {"a": 2}])
    return r.choice([dict, collections.OrderedDict])(d)


def ordered(r):
    ks = list("abcdefgh")
    r.shuffle(ks)
    mixed = r.random() < 0.5
    return collections.OrderedDict(((k if not mixed or r.random() < 0.7 else (k, 1)), i) for i, k in enumerate(ks[: r.randrange(1, 8)]))


def misc(r):
    k = r.randrange(6)
    if k == 0:
        return V.dt_obj(r)
    if k == 1:
        return fractions.Fraction(V.pyint(r), abs(V.pyint(r)) or 1)
    if k == 2:
        return slice(*[r.choice([None, 1, -3, 2 ** 70, "a"]) for _ in range(3)])
    if k == 3:
        return range(r.randrange(-5, 5), r.randrange(-5, 50), r.choice([-2, -1, 1, 3]))
    if k == 4:
        return collections.Counter({V.hashable(r): r.randrange(-3, 9) for _ in range(r.randrange(4))})
    return collections.ChainMap(*[{V.str_key(r): V.scalar(r) for _ in range(r.randrange(3))} for _ in range(r.randrange(1, 4))])


def deep(r):
    v = V.scalar(r)
    for _ in range(r.randrange(1, 8)):
        k = r.randrange(5)
        v = [[v], (v, 1), {"k": v}, collections.deque([v, v]), collections.OrderedDict([("z", v), ("a", 1)])][k]
    return v


def names(r):
    """Dicts stored as keys and values, under any two names."""
    kn, vn = (r.choice(["keys", "values", "", "a/b", ".", "..", "/", "\u00e9", "\\", "\\x41", "k" * 200, "x", "x", "x ", "X"]) for _ in range(2))
    v = r.choice([dict, collections.OrderedDict])({V.hashable(r): V.scalar(r) for _ in range(r.randrange(4))})
    v[r.choice([1, (1, 2), "", b"\xff"])] = r.choice([1, "x", None, [2]])
    kw = any_kw(r)
    if kw["matlab_compatible"] and has_float16(v):
        raise Skip
    kw.update(dict_like_keys_name=kn, dict_like_values_name=vn)
    try:
        w = write_read(fresh("c.h5"), v, kw)
    except ValueError:
        if kn == vn or "" in (kn, vn):
            return "refused"
        raise
    expect_same(v, w, f"{short(kw)} {kn!r} {vn!r}")
    return repr(v)[:300]


def far(r):
    """Dicts of many keys, two of them (alike in all but type) far apart."""
    n = r.choice([2, 3, 10, 30, 60])
    ks = [("k%d" % i).encode() if r.random() < 0.2 else "k%d" % i for i in range(n)]
    if r.random() < 0.7:
        i, j = r.randrange(n), r.randrange(n)
        i, j = r.choice([(i, j), (0, n - 1)])
        if type(ks[i]) is str:
            ks[j] = ks[i].encode()
        else:
            ks[j] = ks[i].decode()
    elif r.random() < 0.5:
        ks[r.randrange(n)] = r.choice(["", 1, b"\xff", "a/b", None, "\x00"])
    return r.choice([dict, collections.OrderedDict])((k, i) for i, k in enumerate(ks))


KINDS = dict(names=names, far=rt(far), container=rt(V.container), keys=rt(keys), ordered=rt(ordered), misc=rt(misc), deep=rt(deep))
