"""C04: random histories of option assignments (valid and invalid values) against a reference table."""
import posixpath

import hdf5storage as h

from .base import expect

BOOL = [
    "store_python_metadata", "delete_unused_variables", "structured_numpy_ndarray_as_struct", "make_atleast_2d",
    "convert_numpy_bytes_to_utf16", "convert_numpy_str_to_utf16", "convert_bools_to_uint8", "reverse_dimension_order",
    "structs_as_dicts", "store_shape_for_empty", "compress", "shuffle_filter", "compressed_fletcher32_filter",
    "uncompressed_fletcher32_filter",
]
CHOICE = dict(
    action_for_matlab_incompatible=("ignore", "discard", "error"), oned_as=("row", "column"),
    compression_algorithm=("gzip", "lzf", "szip"),
)
REQ = dict(
    delete_unused_variables=True, structured_numpy_ndarray_as_struct=True, make_atleast_2d=True, convert_numpy_bytes_to_utf16=True,
    convert_numpy_str_to_utf16=True, convert_bools_to_uint8=True, reverse_dimension_order=True, store_shape_for_empty=True,
    complex_names=("real", "imag"), group_for_references="/#refs#", compression_algorithm="gzip",
)
NAMES = BOOL + list(CHOICE) + [
    "complex_names", "group_for_references", "dict_like_keys_name", "dict_like_values_name", "compress_size_threshold",
    "gzip_compression_level", "matlab_compatible", "matlab_compatible",
]
REJECT = object()


def taken(n, v):
    if n in BOOL or n == "matlab_compatible":
        return v if isinstance(v, bool) else REJECT
    if n in CHOICE:
        return v if isinstance(v, str) and v in CHOICE[n] else REJECT
    if n == "complex_names":
        return v if isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, str) for x in v) else REJECT
    if n == "group_for_references":
        if not isinstance(v, str):
            return REJECT
        p = posixpath.normpath(v)
        p = p[1:] if p.startswith("//") else p
        return p if p.startswith("/") and p != "/" else REJECT
    if n in ("dict_like_keys_name", "dict_like_values_name"):
        return v if isinstance(v, str) else REJECT
    if n == "compress_size_threshold":
        return v if isinstance(v, int) and v >= 0 else REJECT
    if n == "gzip_compression_level":
        return v if isinstance(v, int) and 0 <= v <= 9 else REJECT
    raise AssertionError(n)


def value(r, n):
    k = r.random()
    if k < 0.25:
        return r.choice([None, 1, 0, -1, 10, 9, 2.5, "", "x", b"x", (), ("a",), ("a", "b", "c"), ("a", 1), (1, "a"), ["real", "imag"],
                         "True", "gzip", "row", True, False, object(), {"a": 1}, "/", "//", "a", "/..", ("real", "imag")])
    if n in BOOL or n == "matlab_compatible":
        return r.choice([True, False])
    if n in CHOICE:
        return r.choice(CHOICE[n])
    if n == "complex_names":
        return r.choice([("real", "imag"), ("r", "i"), ("imag", "real"), ("a", "a"), ("", "")])
    if n == "group_for_references":
        return r.choice(["/#refs#", "/#refs#/", "//#refs#", "/x/../#refs#", "/refs", "/a/b", "/a//b/", "/.", "refs", "/#refs#/.."])
    if n == "compress_size_threshold":
        return r.choice([0, 1, 10**9, 16384, True])
    if n == "gzip_compression_level":
        return r.choice([0, 9, 7, 5, False])
    return r.choice(["k", "", "keys", "values", "a/b"])


def state(o):
    return {n: getattr(o, n) for n in sorted(set(NAMES))}


def apply(m, n, v):
    t = taken(n, v)
    if t is not REJECT:
        m[n] = t
        if n == "matlab_compatible" and t:
            m.update(REQ)
    if n in REQ and m[n] != REQ[n]:
        m["matlab_compatible"] = False


def compare(m, o, what):
    s = state(o)
    for n in m:
        expect(type(s[n]) is type(m[n]) and s[n] == m[n], f"{what}: {n} is {s[n]!r} instead of {m[n]!r}")


def history(r):
    o = h.Options()
    m = state(o)
    log = []
    for _ in range(r.randrange(1, 12)):
        n = r.choice(NAMES)
        v = value(r, n)
        log.append((n, v))
        try:
            setattr(o, n, v)
        except (TypeError, ValueError):
            expect(taken(n, v) is REJECT, f"{n}={v!r} was refused")
        else:
            apply(m, n, v)
        compare(m, o, f"after {log[-4:]!r}")
    return repr(log)


def constructor(r):
    kw = {}
    for n in r.sample(sorted(set(NAMES)), r.randrange(1, 8)):
        kw[n] = value(r, n)
        if taken(n, kw[n]) is REJECT:
            kw[n] = {"matlab_compatible": False}.get(n, kw[n])
            if taken(n, kw[n]) is REJECT:
                del kw[n]
    o = h.Options(**kw)
    s = state(o)
    on = kw.get("matlab_compatible", True)
    expect(s["matlab_compatible"] == on, f"{kw!r}: matlab_compatible {s['matlab_compatible']!r}")
    for n, v in kw.items():
        want = REQ[n] if on and n in REQ else taken(n, v)
        expect(s[n] == want, f"{kw!r}: {n} is {s[n]!r} instead of {want!r}")
    if on:
        for n in REQ:
            expect(s[n] == REQ[n], f"{kw!r}: {n} is {s[n]!r} in MATLAB mode")
    return repr(kw)


KINDS = dict(history=history, constructor=constructor)
