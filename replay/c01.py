"""C01: random and short exhaustive strings over the characters the escapes are about, against a reference reader."""
from hdf5storage import pathesc as P

from .base import V, expect, expect_raises

AL = "\\\\\\xuU0a2fF5c/.\x00b\u00e9\U0001f600"


def s_(r, n=12):
    k = r.random()
    if k < 0.001:
        return s_(r, 30) * r.choice([20, 300, 3000]) + s_(r)
    if k < 0.2:
        return V.text(r)
    if k < 0.3:
        return "." * r.randrange(4) + V.text(r)
    return "".join(r.choice(AL) for _ in range(r.randrange(n)))


def ref_unescape(s):
    """Reference reader: None if the text holds an invalid escape."""
    out, i = [], 0
    while i < len(s):
        if s[i] != "\\":
            out.append(s[i])
            i += 1
            continue
        if i + 1 >= len(s):
            return None
        c = s[i + 1]
        if c == "\\":
            out.append("\\")
            i += 2
            continue
        n = {"x": 2, "u": 4, "U": 8}.get(c)
        h = s[i + 2:i + 2 + (n or 0)]
        if n is None or len(h) < n or any(x not in "0123456789abcdefABCDEF" for x in h):
            return None
        v = int(h, 16)
        out.append(chr(v) if v < 0x110000 else "?")
        i += 2 + n
    return "".join(out)


def safe(e):
    expect("/" not in e and "\x00" not in e, f"unsafe name {e!r}")
    expect(not e.startswith("."), f"name with a leading dot {e!r}")


def roundtrip(r):
    s = s_(r)
    e = P.escape_path(s)
    safe(e)
    u = P.unescape_path(e)
    expect(u == s, f"escape {s!r} -> {e!r} -> unescape {u!r}")
    expect(type(e) is str and type(u) is str, "result types")
    return s


def utf8(r):
    s = s_(r)
    try:
        b = s.encode("utf-8")
    except UnicodeEncodeError:
        b = b"x"
        s = "x"
    expect(P.escape_path(b) == P.escape_path(s), f"bytes {b!r}")
    e = P.escape_path(s)
    expect(P.unescape_path(e.encode("utf-8")) == s, f"unescape of bytes {e!r}")
    return s


def injective(r):
    a = s_(r)
    b = list(a)
    if b and r.random() < 0.8:
        i = r.randrange(len(b))
        b[i:i + 1] = r.choice([[], ["\\", b[i]], [r.choice(AL)], list("\\x%02x" % (ord(b[i]) % 256)), [b[i], "\\"]])
    else:
        b.append(r.choice(AL))
    b = "".join(b)
    expect((P.escape_path(a) == P.escape_path(b)) == (a == b), f"{a!r} and {b!r} -> {P.escape_path(a)!r}")
    return a, b


def reader(r):
    s = s_(r)
    k = r.random()
    if k < 0.3:
        s = s_(r, 4) + "\\" * r.randrange(1, 5) + r.choice(["x", "u", "U"]) + "".join(r.choice("0015cC2fF") for _ in range(r.choice([1, 2, 3, 4, 5, 8]))) + s_(r, 4)
    w = ref_unescape(s)
    if w is None:
        expect_raises(ValueError, lambda: P.unescape_path(s), f"unescape {s!r}")
    elif "\\U" in s and "?" in w:
        return s
    else:
        try:
            u = P.unescape_path(s)
        except ValueError as e:
            expect(False, f"unescape {s!r} refused: {e}")
        expect(u == w, f"unescape {s!r}: expected {w!r} got {u!r}")
    return s


def types(r):
    v = r.choice([None, 1, 1.5, ["a"], ("a",), bytearray(b"a"), {"a": 1}])
    expect_raises(TypeError, lambda: P.escape_path(v), f"escape {v!r}")
    expect_raises(TypeError, lambda: P.unescape_path(v), f"unescape {v!r}")
    return repr(v)


KINDS = dict(roundtrip=roundtrip, utf8=utf8, injective=injective, reader=reader, types=types)
