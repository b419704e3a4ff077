"""C02: paths of all forms built from parts, against the normalised joined path; spellings of one path in a file."""
import collections
import os
import pathlib
import posixpath

import hdf5storage as h
from hdf5storage import pathesc as P

from .base import V, expect, expect_raises, expect_same

SEG = ["a", "b", "a\\x2fb", "..", ".", "", "x y", "\u00e9", "#refs", "a.b", "...", "~"]


def text_path(r):
    n = r.randrange(5)
    s = "/".join(r.choice(SEG) for _ in range(n))
    return r.choice(["", "/", "//", "///"]) + s + r.choice(["", "", "/", "//"])


def check(pth, norm):
    g, t = P.process_path(pth)
    expect(type(g) is str and type(t) is str, f"types of {g!r}, {t!r}")
    expect(g != "" and t != "", f"{pth!r}: empty part in {(g, t)!r}")
    # leading slashes make no difference: files have no working directory
    d, b = posixpath.split(norm.lstrip("/"))
    expect((g.lstrip("/"), t) == (d, b or "."), f"{pth!r}: {(g, t)!r}, normalised path {norm!r}")
    expect("/" not in t, f"{pth!r}: target {t!r}")


def strings(r):
    s = text_path(r)
    norm = posixpath.normpath(s)
    k = r.randrange(3)
    if k == 0:
        check(s, norm)
    elif k == 1:
        check(s.encode("utf-8"), norm)
    else:
        check(pathlib.PurePosixPath(s), posixpath.normpath(str(pathlib.PurePosixPath(s))))
    return repr(s)


def seq(r):
    parts = []
    for _ in range(r.randrange(1, 5)):
        k = r.randrange(4)
        s = r.choice([V.text(r), r.choice(SEG), "/" + V.text(r, 2), "..", "a/../..", "\x00"])
        if k == 1:
            s = s.encode("utf-8", "surrogatepass")
            try:
                s.decode("utf-8")
            except UnicodeDecodeError:
                s = b"q"
        elif k == 2:
            s = r.choice([pathlib.PurePosixPath, pathlib.PureWindowsPath])(r.choice(["", "", "C:\\", "/"]) + s.replace("\x00", "z"))
        parts.append(s)
    texts = [p.decode("utf-8") if isinstance(p, bytes) else str(p) for p in parts]
    names = [P.escape_path(t) for t in texts if t != ""]
    norm = "/".join(names) or "."
    g, t = P.process_path(r.choice([list, tuple, collections.deque, collections.UserList])(parts))
    want = ("/".join(names[:-1]), names[-1]) if names else ("", ".")
    expect((g.lstrip("/"), t) == want, f"{parts!r}: {(g, t)!r} instead of {want!r}")
    expect(P.unescape_path(t) == ([x for x in texts if x] or ["."])[-1] or not names, f"{parts!r}: target {t!r}")
    return norm


def bad(r):
    v = r.choice([None, 1, 2.5, {"a"}, {"a": 1}, ("a", 1), ["a", None], ("a", ["b"]), (1,), object, ("a", bytearray(b"x"))])
    expect_raises(TypeError, lambda: P.process_path(v), f"process_path({v!r})")
    return repr(v)


def spellings(path_parts, r):
    names = [P.escape_path(p) for p in path_parts]
    plain = "/".join(names)
    out = [
        "/" + plain, plain, ("/" + plain).encode("utf-8"), "//" + plain if r.random() < 0.0 else "/" + plain + "/", "/./" + plain,
        "/" + names[0] + "/../" + plain, "/" + plain.replace("/", "//"), pathlib.PurePosixPath("/" + plain), tuple(path_parts),
        list(path_parts), tuple(p.encode("utf-8") for p in path_parts), collections.deque(path_parts), collections.UserList(path_parts),
    ]
    return out


def infile(r):
    parts = [r.choice(["a", "..", "a/b", ".x", "\u00e9", "b c", "q\x00w", "a\\b", V.text(r, 3, mode="a") or "z"]) for _ in range(r.randrange(1, 4))]
    sp = spellings(parts, r)
    v = V.scalar(r)
    w = r.choice(sp)
    if os.path.exists("p.h5"):
        os.remove("p.h5")
    with h.File("p.h5", writable=True, matlab_compatible=r.choice([True, False])) as f:
        f.write(v, w)
        for q in r.sample(sp, 4):
            expect_same(v, f.read(q), f"written under {w!r} and read under {q!r}")
            expect(q in f, f"{q!r} not in file after writing {w!r}")
        expect(len(f) - 0 == 1, "one name in the root")
        expect(list(f) == [P.escape_path(parts[0])], f"root names {list(f)!r} for {parts!r}")
    return repr(w)


def windows(r):
    parts = [r.choice(["a", "b c", "x.y"]) for _ in range(r.randrange(1, 4))]
    p = pathlib.PureWindowsPath(r.choice(["", "C:\\", "\\"]) + "\\".join(parts))
    g, t = P.process_path(p)
    expect((g.lstrip("/"), t) == ("/".join(parts[:-1]), parts[-1]), f"{p!r}: {(g, t)!r}")
    return repr(p)


def nulls(r):
    """Paths with an unescaped null (HDF5 would cut them off there)."""
    n = r.choice(["a", "b", "zz"])
    s = r.choice([n + "\x00", n + "\x00" + V.text(r, 2), "\x00", "\x00" + n, "/" + n + "/q\x00", "/q\x00w/../" + n])
    p = r.choice([s, s.encode("utf-8", "surrogatepass"), pathlib.PurePosixPath(s)])
    if isinstance(p, bytes):
        try:
            p.decode()
        except UnicodeDecodeError:
            p = b"a\x00"
    if os.path.exists("p.h5"):
        os.remove("p.h5")
    with h.File("p.h5", writable=True, matlab_compatible=False) as f:
        f.writes({"a": 1, "b": 2})
        expect_raises(ValueError, lambda: f.write(3, p), f"write to {p!r}")
        expect_raises(ValueError, lambda: f.read(p), f"read of {p!r}")
        expect_raises(ValueError, lambda: f.__delitem__(p), f"deletion of {p!r}")
        expect(p not in f, f"{p!r} in the file")
        expect(dict(f) == {"a": 1, "b": 2}, f"file changed by using {p!r}")
    return repr(p)


KINDS = dict(nulls=nulls, strings=strings, seq=seq, bad=bad, infile=infile, windows=windows)
