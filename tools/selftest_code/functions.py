"""Functions tools/selftest.py verifies: what the engine has to get right."""


def maximum(a, b):
    return a if a > b else b


def minimum_wrong(a, b):
    if a > b:
        return a
    return b


def floor(a, b):
    return a // b * b + a % b


def swap(a, b):
    a, b = b, a
    return a - b


def nested(a):
    def inner(x):
        nonlocal total
        total += x
        return total

    total = 1
    inner(a)
    return inner(a)


def closed(lock, fail):
    lock.acquire()
    try:
        if fail:
            raise ValueError("x")
        return 1
    finally:
        lock.release()


def leaks(lock, fail):
    lock.acquire()
    if fail:
        raise ValueError("x")
    lock.release()
    return 1


def caught(kind):
    try:
        if kind == 0:
            raise KeyError("x")
        if kind == 1:
            raise ValueError("x")
    except LookupError:
        return "lookup"
    except Exception:
        return "other"
    else:
        return "none"
    finally:
        pass


def short_circuit(a, calls):
    return a > 0 or calls.append(1) is None


def filtered(seq):
    return [x for x in seq if x.good]


def last_wins(seq):
    found = None
    for x in seq:
        if x.good:
            found = x
    return found


def marks(seq):
    for x in seq:
        x.mark()


def marks_but_first(seq):
    for x in seq[1:]:
        x.mark()


def chained(a, b, c):
    return a <= b < c


def text(s):
    return "a" + s


def slots(a):
    d = {"x": a}
    d.update(y=a + 1)
    d["x"] += 2
    return d["x"] - d["y"]


def star(a, *b, c=3, **d):
    return a + sum(b) + c + d.get("e", 0)


def call_star(a):
    return star(a, *[1, 2], **{"e": 4})


def walrus(a):
    if (n := a + 1) > 10:
        return n
    return 11


def forced(a, b):
    # the second test is decided by the first one on a part of the paths
    r = 0
    if a > 0:
        r += 1
    if a > 0 or b > 0:
        r += 2
    return r


def first_marked(xs):
    found = False
    for x in xs:
        if x.marked:
            found = True
            break
    return found


def inner_break(xs):
    found = False
    for x in xs:
        for y in (1, 2):
            if x.marked:
                found = True
                break
    return found
