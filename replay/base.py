"""Seeded execution of contracts on the real code (bounded layer).

Every case is a function of a ``random.Random`` whose seed string is recorded,
so a failing case is replayed from (property, kind, seed string) alone.
"""
from __future__ import annotations

import contextlib
import os
import random
import shutil
import signal
import tempfile
import threading
import time
import traceback
import warnings

warnings.simplefilter("ignore")

import hdf5storage as h  # noqa: E402

from . import values as V  # noqa: E402


class Violation(Exception):
    """The observed behaviour contradicts the property."""


class Skip(Exception):
    """The drawn input is outside of the property's precondition."""


class Timeout(Exception):
    pass


def expect(cond, msg):
    if not cond:
        raise Violation(msg)


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


def expect_same(a, b, what):
    why = []
    if not V.same(a, b, why):
        raise Violation(f"{what}: expected {short(a)} got {short(b)} ({why[:1]})")


def expect_raises(excs, fn, what):
    try:
        v = fn()
    except excs:
        return
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: raised {type(e).__name__}: {e}") from e
    raise Violation(f"{what}: did not raise (returned {short(v)})")


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vh5-")
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def time_limit(seconds):
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    def onalarm(signum, frame):
        raise Timeout(f"no answer within {seconds} s")

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


BOOLS = [
    "delete_unused_variables", "structured_numpy_ndarray_as_struct", "make_atleast_2d", "convert_numpy_bytes_to_utf16",
    "convert_numpy_str_to_utf16", "convert_bools_to_uint8", "reverse_dimension_order", "store_shape_for_empty",
]


def storage_kw(r):
    return dict(
        compress=r.choice([True, False]),
        compress_size_threshold=r.choice([0, 1, 64, 16384]),
        compression_algorithm=r.choice(["gzip", "lzf"]),
        gzip_compression_level=r.choice([0, 4, 9]),
        shuffle_filter=r.choice([True, False]),
        compressed_fletcher32_filter=r.choice([True, False]),
        uncompressed_fletcher32_filter=r.choice([True, False]),
        oned_as=r.choice(["row", "column"]),
    )


def plain_kw(r):
    """Options of a non MATLAB file (any mix of the individual switches)."""
    mode = r.randrange(4)
    if mode == 0:
        return dict(matlab_compatible=False)
    kw = dict(matlab_compatible=False)
    if mode >= 2:
        for n in BOOLS:
            kw[n] = r.choice([True, False])
    if mode == 3:
        kw.update(storage_kw(r))
        kw["complex_names"] = r.choice([("r", "i"), ("real", "imag"), ("re", "im"), ("Re", "imaginary")])
        kw["group_for_references"] = r.choice(["/#refs#", "/refs", "/a/b", "/a/b/", "/zz#"])
    return kw


def mat_kw(r):
    kw = dict(matlab_compatible=True)
    if r.random() < 0.5:
        st = storage_kw(r)
        st.pop("compression_algorithm")
        kw.update(st)
    return kw


def any_kw(r):
    return mat_kw(r) if r.random() < 0.4 else plain_kw(r)


def root_kw(r):
    """Options with the Group for references in the root of the file, leftovers being deleted."""
    kw = any_kw(r)
    if kw.get("group_for_references", "").count("/a/b"):
        kw["group_for_references"] = "/refs"
    kw["delete_unused_variables"] = True
    return kw


def has_float16(v, depth=0):
    """Whether a value holds anything the MATLAB format has no class for."""
    import collections

    import numpy as np

    if isinstance(v, (np.ndarray, np.generic)):
        if v.dtype.hasobject:
            if v.dtype.names is not None:
                return any(has_float16(np.asarray(v[n])) for n in v.dtype.names)
            return any(has_float16(x) for x in v.flat)

        def f16(dt):
            if dt.subdtype is not None:
                return f16(dt.subdtype[0])
            if dt.names is not None:
                return any(f16(dt[n]) for n in dt.names)
            return (dt.kind == "f" and dt.itemsize == 2) or dt.kind == "V"

        return f16(v.dtype)
    if isinstance(v, collections.ChainMap):
        return any(has_float16(x) for x in v.maps)
    if isinstance(v, dict):
        return any(has_float16(x) for x in list(v) + list(v.values()))
    if isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        return any(has_float16(x) for x in v)
    if isinstance(v, slice):
        return any(has_float16(x) for x in (v.start, v.stop, v.step))
    return False


def write_read(fn, v, kw, path="/v", rkw=None):
    with h.File(fn, writable=True, **kw) as f:
        f.write(v, path)
    with h.File(fn, **(kw if rkw is None else rkw)) as f:
        return f.read(path)


def run_cases(pid, kinds, seed, n, budget_s, per_case_s=30.0):
    """Run n cases of every kind (round robin) within budget_s seconds."""
    t0 = time.time()
    done, distinct, skipped, samples = 0, set(), 0, []
    failure = None
    with scratch() as d:
        for i in range(n):
            if failure or time.time() - t0 > budget_s:
                break
            for kind, fn in kinds.items():
                if failure:
                    break
                out = run_one(pid, kind, fn, f"{seed}:{pid}:{kind}:{i}", per_case_s)
                if out is None:
                    skipped += 1
                    continue
                done += 1
                status, info = out
                if status == "fail":
                    failure = info
                else:
                    key = info if isinstance(info, str) else repr(info)
                    if key not in distinct:
                        distinct.add(key)
                        if len(samples) < 8 and (i % 7 == 3 or len(samples) < 2):
                            samples.append(f"{kind}: {key[:200]}")
            for name in os.listdir(d):
                p = os.path.join(d, name)
                with contextlib.suppress(OSError):
                    shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    return dict(
        evaluations=done, distinct=len(distinct), skipped=skipped, samples=samples, failure=failure,
        wall_s=round(time.time() - t0, 2),
    )


def run_one(pid, kind, fn, seedstr, per_case_s=30.0):
    r = random.Random(seedstr)
    random.seed(seedstr)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with time_limit(per_case_s):
                desc = fn(r)
    except Skip:
        return None
    except Violation as e:
        return "fail", dict(property=pid, kind=kind, case=seedstr, message=str(e), trace=traceback.format_exc())
    except Timeout as e:
        return "fail", dict(property=pid, kind=kind, case=seedstr, message=str(e), trace=traceback.format_exc())
    except Exception as e:  # noqa: BLE001
        return "fail", dict(
            property=pid, kind=kind, case=seedstr,
            message=f"unexpected {type(e).__name__}: {e}", trace=traceback.format_exc(),
        )
    return "ok", desc if desc is not None else seedstr
