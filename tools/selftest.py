"""Does the engine refute what is false and prove what is true?  Run by setup."""
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from pyvc import engine as E  # noqa: E402

E.REPO_SRC = os.path.join(HERE, "tools", "selftest_code")
spec = importlib.util.spec_from_file_location("selftest_code", os.path.join(E.REPO_SRC, "functions.py"))
C = importlib.util.module_from_spec(spec)
spec.loader.exec_module(C)
z3 = E.z3
T = []


def case(want):
    def add(f):
        T.append((f.__name__, want, f))
        return f

    return add


def call(ctx, fn, *a):
    return ctx.interp.run_function(fn, list(a), {})


class Lock(E.Model):
    def __init__(self):
        self.held = False

    def acquire(self):
        self.held = True

    def release(self):
        self.held = False


class Item(E.Model):
    def __init__(self, label, good):
        self.label, self.isgood, self.marked = label, good, False

    def sym_getattr(self, n):
        if n == "good":
            return self.isgood
        if n == "mark":
            return Do(self)
        raise E.Unsupported(n)


class Do(E.Model):
    def __init__(self, o):
        self.o = o

    def sym_call(self):
        self.o.marked = True


@case("discharged")
def maximum_is_an_upper_bound(ctx):
    a, b = ctx.int("a"), ctx.int("b")
    r = call(ctx, C.maximum, a, b)
    ctx.oblige("bound", z3.And(r.e >= a.e, r.e >= b.e))


@case("refuted")
def maximum_is_greater(ctx):
    a, b = ctx.int("a"), ctx.int("b")
    r = call(ctx, C.maximum, a, b)
    ctx.oblige("bound", z3.Or(r.e > a.e, r.e > b.e))


@case("refuted")
def minimum(ctx):
    a, b = ctx.int("a"), ctx.int("b")
    r = call(ctx, C.minimum_wrong, a, b)
    ctx.oblige("bound", z3.And(r.e <= a.e, r.e <= b.e))


@case("discharged")
def division(ctx):
    a, b = ctx.int("a"), ctx.int("b")
    ctx.assume(b.e > 0)
    ctx.oblige("law", call(ctx, C.floor, a, b).e == a.e)


@case("discharged")
def swapping(ctx):
    a, b = ctx.int("a"), ctx.int("b")
    ctx.oblige("difference", call(ctx, C.swap, a, b).e == b.e - a.e)


@case("discharged")
def closures(ctx):
    a = ctx.int("a")
    ctx.oblige("sum", call(ctx, C.nested, a).e == 2 * a.e + 1)


def lock(ctx, fn):
    lk = Lock()
    try:
        call(ctx, fn, lk, ctx.choose(2, "fail") == 1)
    except ValueError:
        pass
    ctx.oblige("released", not lk.held)


@case("discharged")
def lock_in_finally(ctx):
    lock(ctx, C.closed)


@case("refuted")
def lock_leaks(ctx):
    lock(ctx, C.leaks)


@case("discharged")
def handlers(ctx):
    k = ctx.int("k")
    r = call(ctx, C.caught, k)
    ctx.oblige("handler", {"lookup": k.e == 0, "other": k.e == 1, "none": z3.And(k.e != 0, k.e != 1)}[r])


@case("discharged")
def short_circuits(ctx):
    a, calls = ctx.int("a"), []
    call(ctx, C.short_circuit, a, calls)
    ctx.oblige("second operand only if needed", (a.e > 0) if not calls else (a.e <= 0))


def items(goods):
    return [Item(str(i), g) for i, g in enumerate(goods)]


@case("refuted")
def filter_keeps_all(ctx):
    x = Item("x", ctx.choose(2, "good") == 1)
    r = call(ctx, C.filtered, E.FocusSeq([(True, Item("g", True)), (False, x), (True, Item("h", False))]))
    ctx.oblige("kept", any(y is x for _, y in r.elems))


@case("discharged")
def filter_keeps_the_good(ctx):
    x = Item("x", ctx.choose(2, "good") == 1)
    r = call(ctx, C.filtered, E.FocusSeq([(True, Item("g", True)), (False, x), (True, Item("h", False))]))
    ctx.oblige("kept", any(y is x for _, y in r.elems) == x.isgood)


@case("undecided")
def information_between_iterations(ctx):
    x = Item("x", True)
    call(ctx, C.last_wins, E.FocusSeq([(True, Item("g", True)), (False, x), (True, Item("h", True))]))
    ctx.oblige("found", True)


@case("discharged")
def every_element(ctx):
    x = Item("x", True)
    call(ctx, C.marks, E.FocusSeq([(True, Item("g", True)), (False, x), (True, Item("h", True))]))
    ctx.oblige("marked", x.marked)


@case("undecided")
def every_element_but_the_first(ctx):
    x = Item("x", True)
    call(ctx, C.marks_but_first, E.FocusSeq([(True, Item("g", True)), (False, x), (True, Item("h", True))]))
    ctx.oblige("marked", x.marked)


@case("refuted")
def every_element_but_the_first_of_some(ctx):
    xs = items([True, True])
    call(ctx, C.marks_but_first, xs)
    ctx.oblige("marked", xs[0].marked)


@case("discharged")
def chained_comparison(ctx):
    a, b, c = ctx.int("a"), ctx.int("b"), ctx.int("c")
    r = ctx.interp.truth(call(ctx, C.chained, a, b, c))
    cond = z3.And(a.e <= b.e, b.e < c.e)
    ctx.oblige("and", cond if r else z3.Not(cond))


@case("discharged")
def strings(ctx):
    s = ctx.str("s")
    r = call(ctx, C.text, s)
    ctx.oblige("prefix", z3.And(z3.PrefixOf(z3.StringVal("a"), r.e), z3.Length(r.e) == z3.Length(s.e) + 1))


@case("discharged")
def dictionaries(ctx):
    ctx.oblige("difference", call(ctx, C.slots, ctx.int("a")).e == 1)


@case("discharged")
def arguments(ctx):
    a = ctx.int("a")
    ctx.oblige("sum", call(ctx, C.call_star, a).e == a.e + 10)


@case("discharged")
def walrus(ctx):
    a = ctx.int("a")
    ctx.oblige("at least", E.zi(call(ctx, C.walrus, a)) >= 11)


@case("discharged")
def forced_branches(ctx):
    a, b = ctx.int("a"), ctx.int("b")
    r = call(ctx, C.forced, a, b)
    ctx.oblige("paths", E.zi(r) == z3.If(a.e > 0, 3, z3.If(b.e > 0, 2, 0)))


class Flag(E.Model):
    def __init__(self, v):
        self.v = v

    def sym_getattr(self, n):
        if n == "marked":
            return self.v
        raise E.Unsupported(n)


@case("discharged")
def flag_then_break(ctx):
    m = ctx.choose(2, "marked") == 1
    r = call(ctx, C.first_marked, E.FocusSeq([(True, Flag(False)), (False, Flag(m)), (True, Flag(False))]))
    ctx.oblige("set if one is", r is m)


@case("refuted")
def flag_then_break_wrong(ctx):
    m = ctx.choose(2, "marked") == 1
    r = call(ctx, C.first_marked, E.FocusSeq([(True, Flag(False)), (False, Flag(m)), (True, Flag(False))]))
    ctx.oblige("never set", r is False)


@case("undecided")
def flag_then_break_arbitrary(ctx):
    call(ctx, C.first_marked, E.FocusSeq([(True, Flag(True)), (False, Flag(True))]))
    ctx.oblige("anything", True)


@case("undecided")
def break_of_inner_loop(ctx):
    call(ctx, C.inner_break, E.FocusSeq([(True, Flag(False)), (False, Flag(False))]))
    ctx.oblige("anything", True)


@case("undecided")
def contradictory_precondition(ctx):
    a = ctx.int("a")
    ctx.assume(z3.And(a.e > 0, a.e < 0))
    ctx.oblige("anything", a.e == 7)


def verdict(f):
    r = E.Run(f.__name__, f)
    r.execute()
    st = {o.status for o in r.obligations}
    return "refuted" if "refuted" in st else "undecided" if r.undecided or "undecided" in st or not st else "discharged"


def main():
    bad = 0
    for name, want, f in T:
        got = verdict(f)
        if got != want:
            bad += 1
            print(f"selftest: {name}: {got} instead of {want}")
    print(f"selftest: {len(T) - bad} of {len(T)} as expected")
    return bad


if __name__ == "__main__":
    sys.exit(1 if main() else 0)
