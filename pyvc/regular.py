"""Languages of Python regular expressions, as parsed by Python itself.

``search_language(pattern)`` is the automaton of all texts in which a match is
found; the languages of two automata are compared exactly (product emptiness),
over all of Unicode.  Not supported, and refused: lookaround, backreferences,
flags other than DOTALL.
"""
import re
import re._constants as C
import re._parser as parser

from .engine import Unsupported

TOP = 0x110000


class Chars(frozenset):
    """A set of code points, as disjoint sorted intervals [a, b)."""

    @staticmethod
    def of(spans):
        out = []
        for a, b in sorted(spans):
            if out and a <= out[-1][1]:
                out[-1] = (out[-1][0], max(b, out[-1][1]))
            elif a < b:
                out.append((a, b))
        return Chars(out)

    @staticmethod
    def one(c):
        return Chars.of([(c, c + 1)])

    @staticmethod
    def text(s):
        return Chars.of([(ord(c), ord(c) + 1) for c in s])

    def spans(self):
        return sorted(self)

    def complement(self):
        out, at = [], 0
        for a, b in self.spans():
            out.append((at, a))
            at = b
        out.append((at, TOP))
        return Chars.of([x for x in out if x[0] < x[1]])

    def has(self, c):
        return any(a <= c < b for a, b in self)

    def meet(self, o):
        return Chars.of([(max(a, c), min(b, d)) for a, b in self for c, d in o if max(a, c) < min(b, d)])

    def minus(self, o):
        return self.meet(o.complement())

    def union(self, o):
        return Chars.of([*self, *o])

    def size(self):
        return sum(b - a for a, b in self)

    def members(self):
        for a, b in self.spans():
            for c in range(a, b):
                yield chr(c)


ALL = Chars.of([(0, TOP)])
NEWLINE = Chars.text("\n")
_cats = {}


def category(name):
    if name not in _cats:
        t = {"CATEGORY_DIGIT": r"\d", "CATEGORY_NOT_DIGIT": r"\D", "CATEGORY_SPACE": r"\s", "CATEGORY_NOT_SPACE": r"\S", "CATEGORY_WORD": r"\w", "CATEGORY_NOT_WORD": r"\W"}.get(str(name))
        if t is None:
            raise Unsupported(f"{name} in a regular expression")
        m = re.compile(t).match
        out, start = [], None
        for c in range(TOP):
            ok = m(chr(c)) is not None
            if ok and start is None:
                start = c
            elif not ok and start is not None:
                out.append((start, c))
                start = None
        if start is not None:
            out.append((start, TOP))
        _cats[name] = Chars.of(out)
    return _cats[name]


def parse(pattern):
    """The parsed form of a compiled pattern."""
    if not isinstance(pattern.pattern, str):
        raise Unsupported("regular expression on bytes")
    if pattern.flags & ~(re.UNICODE | re.DOTALL):
        raise Unsupported("flags of a regular expression")
    return parser.parse(pattern.pattern, pattern.flags & ~re.UNICODE)


def chars_of(op, av, flags=0):
    """The set a one character element matches, or None."""
    if op is C.LITERAL:
        return Chars.one(av)
    if op is C.NOT_LITERAL:
        return Chars.one(av).complement()
    if op is C.ANY:
        return ALL if flags & re.DOTALL else NEWLINE.complement()
    if op is C.IN:
        neg, spans = False, []
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                spans.append((a, a + 1))
            elif o is C.RANGE:
                spans.append((a[0], a[1] + 1))
            elif o is C.CATEGORY:
                spans.extend(category(a))
            else:
                raise Unsupported(f"{o} in a regular expression")
        s = Chars.of(spans)
        return s.complement() if neg else s
    return None


def unwrap(items):
    """Drops groups around the whole."""
    items = list(items)
    while len(items) == 1 and items[0][0] is C.SUBPATTERN and not items[0][1][1] and not items[0][1][2]:
        items = list(items[0][1][3])
    return items


class Nfa:
    def __init__(self):
        self.n, self.eps, self.chars, self.at = 0, {}, {}, {}
        self.flags = 0

    def state(self):
        self.n += 1
        return self.n - 1

    def add(self, items, a):
        for op, av in items:
            s = chars_of(op, av, self.flags)
            if s is not None:
                b = self.state()
                self.chars.setdefault(a, []).append((s, b))
                a = b
            elif op is C.BRANCH:
                b = self.state()
                for alt in av[1]:
                    x = self.state()
                    self.eps.setdefault(a, []).append(x)
                    self.eps.setdefault(self.add(alt, x), []).append(b)
                a = b
            elif op is C.SUBPATTERN:
                if av[1] or av[2]:
                    raise Unsupported("flags in a regular expression")
                a = self.add(av[3], a)
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT, getattr(C, "POSSESSIVE_REPEAT", None)):
                if op not in (C.MAX_REPEAT, C.MIN_REPEAT):
                    raise Unsupported("possessive repetition")
                lo, hi, sub = av
                if lo > 200 or (hi is not C.MAXREPEAT and hi > 200):
                    raise Unsupported("long repetition")
                for _ in range(lo):
                    a = self.add(sub, a)
                end = self.state()
                self.eps.setdefault(a, []).append(end)
                if hi is C.MAXREPEAT:
                    x = self.state()
                    self.eps.setdefault(a, []).append(x)
                    y = self.add(sub, x)
                    self.eps.setdefault(y, []).extend([x, end])
                else:
                    for _ in range(hi - lo):
                        a = self.add(sub, a)
                        self.eps.setdefault(a, []).append(end)
                a = end
            elif op is C.AT:
                if av not in (C.AT_BEGINNING, C.AT_BEGINNING_STRING, C.AT_END, C.AT_END_STRING):
                    raise Unsupported(f"{av} in a regular expression")
                b = self.state()
                self.at.setdefault(a, []).append((av, b))
                a = b
            else:
                raise Unsupported(f"{op} in a regular expression")
        return a


FREE, NL, END = "", "a newline, then the end", "the end"


class Language:
    """A regular set of texts, as a lazily built deterministic automaton."""

    def __init__(self, start, step, accepts, sets):
        self.start, self.step, self.accepts, self.sets = start, step, accepts, sets

    def complement(self):
        return Language(self.start, self.step, lambda s: not self.accepts(s), self.sets)

    def meet(self, o):
        return Language((self.start, o.start), lambda s, c: (self.step(s[0], c), o.step(s[1], c)), lambda s: self.accepts(s[0]) and o.accepts(s[1]), self.sets | o.sets)

    def witness(self):
        """A shortest text in it, or None."""
        cuts = sorted({x for s in self.sets for ab in s for x in ab} | {0})
        reps, seen = [], set()
        prefer = [ord(c) for c in "a0x\\/."]
        for i, a in enumerate(cuts):
            if a >= TOP:
                continue
            sig = tuple(s.has(a) for s in self.sets_list())
            if sig in seen:
                continue
            seen.add(sig)
            reps.append(next((p for p in prefer if tuple(s.has(p) for s in self.sets_list()) == sig), a))
        todo, known = [(self.start, "")], {self.start}
        for s, t in todo:
            if self.accepts(s):
                return t
            for c in reps:
                n = self.step(s, c)
                if n not in known:
                    known.add(n)
                    todo.append((n, t + chr(c)))
                    if len(known) > 200000:
                        raise Unsupported("automaton too large")
        return None

    def sets_list(self):
        if not hasattr(self, "_l"):
            self._l = list(self.sets)
        return self._l


def language(pattern, begin_anywhere, end_anywhere):
    n = Nfa()
    tree = parse(pattern)
    n.flags = tree.state.flags
    first = n.state()
    last = n.add(tree, first)
    sets = {s for v in n.chars.values() for s, _ in v} | {NEWLINE}

    def closure(states, beginning):
        todo, out = list(states), set(states)
        while todo:
            q, f = todo.pop()
            new = [(x, f) for x in n.eps.get(q, ())]
            for at, x in n.at.get(q, ()):
                if at in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                    if beginning:
                        new.append((x, f))
                elif f == FREE:
                    new.append((x, END))
                    if at is C.AT_END:
                        new.append((x, NL))
                elif f == END or at is C.AT_END:
                    new.append((x, f))
            for s in new:
                if s not in out:
                    out.add(s)
                    todo.append(s)
        return frozenset(out)

    def step(states, c):
        out = set()
        for q, f in states:
            if f == END or (f == NL and c != 10):
                continue
            f = END if f == NL else f
            if q == last and end_anywhere:
                out.add((q, f))
            for s, x in n.chars.get(q, ()):
                if s.has(c):
                    out.add((x, f))
        if begin_anywhere:
            out.add((first, FREE))
        return closure(out, False)

    return Language(closure({(first, FREE)}, True), step, lambda s: any(q == last and f in (FREE, END) for q, f in s), frozenset(sets))


def found(pattern, how):
    """The texts in which ``pattern.how(text)`` finds something."""
    return language(pattern, how == "search", how != "fullmatch")
