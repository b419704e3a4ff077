"""C05: random histories on a collection with overlapping marshallers against a reference list."""
import itertools

import hdf5storage as h
from hdf5storage import Marshallers as M

from .base import expect, expect_raises

TYPES = [int, "mymod.A", "mymod.B", str, dict, "numpy.float64", complex, "mymod.C"]
STRS = ["int", "mine", "other", "str", "dict", "numpy.float64", "third"]
CLASSES = ["double", "struct", "cell", "myclass", "int8"]
PRIO = list(itertools.permutations(["builtin", "plugin", "user"]))


def marshaller(r):
    class Mine(M.TypeMarshaller):
        def __init__(self):
            M.TypeMarshaller.__init__(self)
            n = r.randrange(3)
            self.types = tuple(r.sample(TYPES, n))
            self.python_type_strings = tuple(r.sample(STRS, n))
            self.matlab_classes = tuple(r.sample(CLASSES, r.randrange(3)))
            k = r.random()
            if k < 0.2:
                self.required_parent_modules = ["no_such_module_anywhere"]
                self.required_modules = ["no_such_module_anywhere"]
            elif k < 0.4:
                self.required_parent_modules = ["json"]
                self.required_modules = [r.choice(["json", "wsgiref.headers"])]
            self.update_type_lookups()

    return Mine()


def tname(t):
    return t if isinstance(t, str) else t.__module__ + "." + t.__name__


def usable(m):
    import importlib

    try:
        for n in list(m.required_parent_modules) + list(m.required_modules):
            importlib.import_module(n)
    except ImportError:
        return False
    return True


def check(c, builtin, user, prio, what):
    order = []
    for p in prio:
        order += {"builtin": builtin, "plugin": [], "user": user}[p]

    def first(pred):
        for m in order:
            if pred(m):
                return m
        return None

    def eq(got, want, q):
        if want is None:
            expect(got == (None, False), f"{what}: {q} gave {got!r} instead of none")
        else:
            expect(got[0] is want, f"{what}: {q} gave {got[0]!r} instead of {want!r} (order {prio!r})")
            expect(got[1] == usable(want), f"{what}: {q} usable {got[1]!r}")

    for t in TYPES + [float, list, "nowhere.X"]:
        eq(c.get_marshaller_for_type(t), first(lambda m: tname(t) in [tname(x) for x in m.types]), f"type {t!r}")
    for s in STRS + ["list", "nothing"]:
        eq(c.get_marshaller_for_type_string(s), first(lambda m: s in m.python_type_strings), f"type string {s!r}")
    for k in CLASSES + ["char", "nothing"]:
        eq(c.get_marshaller_for_matlab_class(k), first(lambda m: k in m.matlab_classes), f"class {k!r}")


def history(r):
    prio = r.choice(PRIO)
    base = [marshaller(r) for _ in range(5)]
    start = r.sample(base, r.randrange(3))
    c = h.MarshallerCollection(lazy_loading=r.choice([True, False]), priority=r.choice([list, tuple])(prio), marshallers=start)
    probe = h.MarshallerCollection(priority=("builtin", "plugin", "user"))
    builtin_types = {}
    for t in TYPES + [float, list]:
        builtin_types[tname(t)] = probe.get_marshaller_for_type(t)[0]
    builtin = c._builtin_marshallers if hasattr(c, "_builtin_marshallers") else None
    if builtin is None:
        return "skipped"
    user = list(start)
    log = [f"start {len(start)}"]
    check(c, builtin, user, prio, "start")
    for _ in range(r.randrange(1, 7)):
        k = r.randrange(5)
        if k == 0:
            m = r.choice(base)
            c.add_marshaller(m)
            user += [m] if m not in user else []
        elif k == 1:
            ms = [r.choice(base) for _ in range(r.randrange(4))]
            c.add_marshaller(r.choice([list, tuple, iter])(ms))
            for m in ms:
                user += [m] if m not in user else []
        elif k == 2:
            c.clear_marshallers()
            user = []
        elif k == 3:
            ms = r.sample(base, r.randrange(1, 3))
            c.remove_marshaller(ms if len(ms) > 1 else ms[0])
            user = [m for m in user if m not in ms]
        else:
            bad = r.choice([5, [base[0], "x"], [None], base + [int]])
            expect_raises(TypeError, lambda: c.add_marshaller(bad), "adding something that is not a marshaller")
        log.append(k)
        check(c, builtin, user, prio, f"after {log!r}")
    return repr((prio, log))


def badprio(r):
    p = r.choice([("builtin", "plugin"), ("builtin", "plugin", "user", "user"), ("a", "b", "c"), ("builtin", "builtin", "user"), ()])
    expect_raises(ValueError, lambda: h.MarshallerCollection(priority=p), f"priority {p!r}")
    expect_raises(TypeError, lambda: h.MarshallerCollection(priority=r.choice([5, None, {"builtin"}])), "priority type")
    return repr(p)


KINDS = dict(history=history, badprio=badprio)
