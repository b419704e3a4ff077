"""C01: contracts of escape_path and unescape_path, for every text.

The escaped texts are the sequences of tokens

    any character but a backslash | two backslashes | \\xHH | \\uHHHH | \\UHHHHHHHH

each of which means one character (a prefix code, so a text has one reading).

  * unescape_path refuses with ValueError exactly the texts that are no such
    sequence, and gives what the others mean.
  * escape_path gives, for every text, such a sequence that means the text, with
    no slash, no null and no leading period.

That unescaping undoes escaping, and that different texts get different names,
is the composition.  Regular expressions are taken from the compiled patterns of
the code; questions about where one is found are decided on automata built from
Python's own parse of it (``pyvc.regular``).  A substitution is taken apart into
the pieces its pattern matches, of which an arbitrary one is followed through
the replacement function.
"""
import re
import re._constants as C

from pyvc import regular as R
from pyvc.engine import Model, PathEnd, SBool, SInt, Unsupported, current, z3

TRUSTED = [
    "Python's re: the parse of a pattern means what it says; search, match, fullmatch find a match if there is one; sub replaces the leftmost matches, repetitions being greedy",
    "Python's str: decode of UTF-8, slices, count, replace from left to right, chr, ord, int with base 16",
]
HEX = R.Chars.text("0123456789abcdefABCDEF")
BACK = R.Chars.text("\\")
TOKENS = re.compile(r"(?:[^\\]|\\\\|\\x[0-9a-fA-F]{2}|\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{8})*")
LENGTH = {"x": 2, "u": 4, "U": 8}


def meaning(t):
    """What an escaped text means, None if it is no sequence of tokens."""
    out, i = "", 0
    while i < len(t):
        if t[i] != "\\":
            out, i = out + t[i], i + 1
        elif t[i + 1:i + 2] == "\\":
            out, i = out + "\\", i + 2
        else:
            n = LENGTH.get(t[i + 1:i + 2])
            h = t[i + 2:i + 2 + (n or 0)]
            if n is None or len(h) != n or not all(HEX.has(ord(c)) for c in h) or int(h, 16) >= R.TOP:
                return None
            out, i = out + chr(int(h, 16)), i + 2 + n
    return out


def ze(n):
    return n.e if isinstance(n, SInt) else z3.IntVal(n)


def same(a, b):
    return current().must(ze(a) == ze(b))


class Str(Model):
    def sym_isinstance(self, cls):
        return issubclass(str, cls)

    def sym_type(self):
        return str

    def sym_binop(self, op, o, refl):
        if op == "Add" and isinstance(o, (str, Str)):
            a, b = (parts(o), parts(self)) if refl else (parts(self), parts(o))
            return joined(a + b)
        raise Unsupported(f"{op} on text")

    def sym_getattr(self, n):
        f = getattr(self, "do_" + n, None)
        if f is None:
            raise Unsupported(f"attribute {n} of text")
        return f

    def sym_eq(self, o):
        raise Unsupported("comparison of text")

    def sym_str(self):
        return self


def parts(x):
    if isinstance(x, str):
        return [x] if x else []
    return list(x.parts) if isinstance(x, Cat) else [x]


def joined(p):
    p = [x for x in p if x != ""] if all(isinstance(x, (str, Str)) for x in p) else p
    return "" if not p else p[0] if len(p) == 1 else Cat(p)


class Cat(Str):
    """Text made of pieces."""

    def __init__(self, p):
        self.parts = p

    def __repr__(self):
        return " + ".join(map(repr, self.parts))


class Rep(Str):
    """A text ``n`` times."""

    def __init__(self, t, n):
        self.t, self.n = t, n

    def __repr__(self):
        return f"{self.t!r}*({z3.simplify(ze(self.n))})"


def repeat(t, n):
    if current().must(n.e == 0):
        return ""
    if not current().interp.truth(SBool(n.e >= 0)):
        return ""
    return Rep(t, n)


# -- escaping -------------------------------------------------------------------


class Source(Str):
    """An arbitrary text: a run of some characters, if ``run`` is (set, number),
    and then a rest whose first character is not in ``notfirst``."""

    def __init__(self, lang=None):
        self.run, self.notfirst, self.asked = None, None, False
        self.rest = Rest(self)
        self.lang, self.read = lang, None

    def __repr__(self):
        return "<the text>"

    def split(self, s):
        """Whether it begins with a character of the set; the run of them."""
        if self.asked:
            if self.run is not None and self.run[0] == s:
                return True
            if self.run is None and self.notfirst == s:
                return False
            raise Unsupported("text taken apart in two ways")
        self.asked, self.notfirst = True, s
        if current().choose(2, "begins with such a character"):
            n = current().int("length of the run").e
            current().assume(n >= 1)
            self.run = (s, SInt(n))
            return True
        return False

    def pieces(self):
        return [] if self.run is None else [Run(self)]

    def do_decode(self, *a, **k):
        raise AttributeError("decode")

    def sym_getitem(self, i):
        if isinstance(i, slice) and i.step is None:
            n = 0 if self.run is None else self.run[1]
            zero = self.run is None
            if i.stop is None and i.start is not None and same(i.start, n):
                return self if zero else self.rest
            if i.start in (None, 0) and not isinstance(i.start, SInt) and i.stop is not None and same(i.stop, n):
                return "" if zero else Run(self)
            if i.start is None and i.stop is None:
                return self
        raise Unsupported("part of the text")

    def sym_len(self):
        return SInt(self.length())

    def length(self):
        if not hasattr(self, "n"):
            self.n = current().int("length of the rest").e
            current().assume(self.n >= 0)
        return self.n if self.run is None else self.n + self.run[1].e

    def sym_bool(self):
        return self.sym_len().e > 0

    def do_lstrip(self, chars=None):
        if not isinstance(chars, str):
            raise Unsupported("lstrip")
        return self.rest if self.split(R.Chars.text(chars)) else self

    def do_startswith(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        if all(isinstance(x, str) and len(x) == 1 for x in ts):
            return self.split(R.Chars.text("".join(ts)))
        raise Unsupported("startswith")

    def sym_contains(self, x):
        if isinstance(x, str) and self.lang is not None:
            return self.matches(re.compile(re.escape(x)), "search")
        raise Unsupported("membership")

    def matches(self, p, how):
        """Whether p is found in it; the path goes on with those texts only."""
        f = R.found(p, how)
        yes, no = self.lang.meet(f), self.lang.meet(f.complement())
        k = current().choose(2, f"{how} finds something")
        self.lang = yes if k else no
        if self.lang.witness() is None:
            raise PathEnd
        return bool(k)


class Rest(Str):
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "<the rest>"

    def sym_len(self):
        self.s.length()
        return SInt(self.s.n)

    def sym_bool(self):
        return self.sym_len().e > 0


class Run(Str):
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "<the run>"

    def sym_len(self):
        return self.s.run[1]


class Mapped(Str):
    """The rest (or all of the text, where there is no run) with the characters
    of a set replaced."""

    def __init__(self, over, chars, images):
        self.over, self.chars, self.images = over, chars, images

    def __repr__(self):
        return f"<the rest with {self.images} replaced>"


class Found(Model):
    """A match of known text."""

    def __init__(self, groups, end=None):
        self.groups_, self.end_ = groups, end

    def sym_bool(self):
        return True

    def sym_eq(self, o):
        return False if o is None else self is o

    def sym_getitem(self, i):
        return self.group(i)

    def group(self, *a):
        if len(a) > 1:
            raise Unsupported("groups")
        if not a or a[0] == 0:
            if self.groups_[0] is None:
                raise Unsupported("text of a match")
            return self.groups_[0]
        if a[0] in self.groups_:
            return self.groups_[a[0]]
        raise Unsupported("groups")

    def sym_getattr(self, n):
        if n == "group":
            return self.group
        if n in ("end", "start") and self.end_ is not None:
            return getattr(self, n)
        raise Unsupported(f"attribute {n} of a match")

    def end(self, g=0):
        if g != 0:
            raise Unsupported("groups")
        return self.end_

    def start(self, g=0):
        if g != 0:
            raise Unsupported("groups")
        return 0


def one_char(p):
    """The set of the characters a pattern of one character matches, or None."""
    t = R.parse(p)
    items = R.unwrap(t)
    if len(items) == 1 and items[0][0] is C.BRANCH:
        out = R.Chars()
        for alt in items[0][1][1]:
            if len(alt) != 1:
                return None
            s = R.chars_of(*alt[0], t.state.flags)
            if s is None:
                return None
            out = out.union(s)
        return out
    return R.chars_of(*items[0], t.state.flags) if len(items) == 1 else None


def greedy_run(p):
    """(set, least number) of a pattern that is one greedy repetition of a character."""
    t = R.parse(p)
    items = R.unwrap(t)
    if len(items) == 1 and items[0][0] is C.MAX_REPEAT:
        lo, hi, sub = items[0][1]
        sub = R.unwrap(sub)
        if lo in (0, 1) and hi is C.MAXREPEAT and len(sub) == 1:
            s = R.chars_of(*sub[0], t.state.flags)
            if s is not None:
                return s, lo
    return None


def pattern(p, name, args, kwargs):
    """A method of a compiled pattern."""
    if kwargs:
        raise Unsupported(f"{name} of a pattern")
    it = current().interp
    if name in ("search", "match", "fullmatch") and len(args) == 1 and isinstance(args[0], Source):
        s = args[0]
        if name == "match":
            g = greedy_run(p)
            if g is not None and s.lang is None:
                if s.split(g[0]):
                    return Found({0: Run(s)}, s.run[1])
                return None if g[1] else Found({0: ""}, 0)
        if s.lang is None:
            raise Unsupported(f"{name} in the text")
        return Found({0: None}) if s.matches(p, name) else None
    if name == "sub" and len(args) == 2:
        f, s = args
        if isinstance(s, (Rest, Source)) and (isinstance(s, Rest) or s.lang is None):
            chars = one_char(p)
            if chars is None or isinstance(s, Source) and s.run is not None:
                raise Unsupported("substitution in the text")
            if chars.size() > 400:
                raise Unsupported("substitution of many characters")
            images = {}
            for c in chars.members():
                r = f if isinstance(f, str) and "\\" not in f else it.call(f, Found({0: c}))
                if not isinstance(r, str):
                    raise Unsupported("replacement")
                images[c] = r
            return Mapped(s, chars, images)
        if isinstance(s, Source):
            return escapes(p, f, s)
    raise Unsupported(f"{name} of a pattern")


# -- unescaping -----------------------------------------------------------------


class Word(Str):
    """What comes after a run of backslashes: a letter and hexadecimal digits (or
    any text, for ``kind`` None) up to ``length`` of the digits."""

    def __init__(self, kind, value, digits):
        self.kind, self.value, self.digits = kind, value, digits

    def __repr__(self):
        return f"<{self.kind} and {self.digits} digits>"

    def do_count(self, t):
        if t == "\\":
            return 0
        raise Unsupported("count")

    def sym_len(self):
        return 1 + self.digits

    def sym_getitem(self, i):
        if i.__class__ is int and i == 0:
            return self.kind
        if isinstance(i, slice) and i.step is None and i.stop is None:
            if i.start.__class__ is int and i.start == 1:
                return Hex(self)
            if i.start is None:
                return self
        raise Unsupported("part of an escape")


class Hex(Str):
    def __init__(self, w):
        self.w = w

    def __repr__(self):
        return f"<digits of {self.w}>"

    def sym_len(self):
        return self.w.digits


class Code(Str):
    """The character with a number."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"<character {self.v}>"

    def sym_eq(self, o):
        if isinstance(o, str):
            return SBool(self.v.e == ord(o)) if len(o) == 1 else False
        raise Unsupported("comparison of text")

    def sym_len(self):
        return 1


class Slashes(Str):
    """All of a match: ``n`` backslashes and a word."""

    def __init__(self, n, w):
        self.n, self.w = n, w

    def __repr__(self):
        return f"<{self.n} backslashes and {self.w}>"

    def do_count(self, t):
        if t == "\\":
            return self.n
        raise Unsupported("count")

    def do_lstrip(self, t=None):
        if t == "\\":
            return self.w
        raise Unsupported("lstrip")

    def sym_len(self):
        return SInt(self.n.e + 1 + self.w.digits)

    def do_index(self, t):
        if isinstance(t, str) and t == self.w.kind:
            return self.n
        raise Unsupported("index")

    do_find = do_rfind = do_rindex = do_index

    def sym_getitem(self, i):
        if isinstance(i, SInt):
            if same(i, self.n):
                return self.w.kind
        elif i.__class__ is int and i < 0 and -i == 1 + self.w.digits:
            return self.w.kind
        if isinstance(i, slice) and i.step is None:
            if i.stop is None and i.start is not None:
                if same(i.start, self.n) or i.start.__class__ is int and i.start == -1 - self.w.digits:
                    return self.w
                if same(i.start, SInt(self.n.e + 1)) or i.start.__class__ is int and i.start == -self.w.digits:
                    return Hex(self.w)
            if i.start is None or i.start.__class__ is int and i.start == 0:
                if i.stop is None:
                    return self
                if current().must(z3.And(ze(i.stop) >= 0, ze(i.stop) <= self.n.e)):
                    return Rep("\\", i.stop if isinstance(i.stop, SInt) else SInt(z3.IntVal(i.stop)))
                if i.stop.__class__ is int and i.stop == -1 - self.w.digits:
                    return Rep("\\", self.n)
        raise Unsupported("part of an escape")


class Reading(Model):
    """An arbitrary piece of a text that is a sequence of tokens, and what it
    means: ``n`` backslashes (none or more; as many as there are) and what is after
    them up to the next one."""


class Plain(Str):
    """Characters other than backslashes."""

    def __repr__(self):
        return "<no backslashes>"


class Subbed(Str):
    """The text with escapes replaced: the image of an arbitrary piece."""

    def __init__(self, source, piece, image):
        self.source, self.piece, self.image = source, piece, image

    def __repr__(self):
        return f"<text with {self.piece} as {self.image!r}>"

    def do_replace(self, a, b, *k):
        if k or a != "\\\\" or b != "\\":
            raise Unsupported("replace")
        # runs of backslashes: each piece has one, of an even length if the
        # pieces around it are not to matter
        p = parts(self.image)
        n, i = z3.IntVal(0), 0
        while i < len(p) and (isinstance(p[i], Rep) and p[i].t == "\\" or isinstance(p[i], str) and set(p[i]) == {"\\"}):
            n = n + (p[i].n.e if isinstance(p[i], Rep) else len(p[i]))
            i += 1
        tail = p[i:]
        for t in tail:
            if isinstance(t, Code):
                if not current().must(t.v.e != 92):
                    raise Unsupported("backslash within a piece")
            elif not isinstance(t, (Plain, Word, Hex)) and not (isinstance(t, str) and "\\" not in t):
                raise Unsupported("backslash within a piece")
        current().oblige("unescape:what replacing leaves are pairs of backslashes", SBool(n % 2 == 0), repr(self))
        return Subbed(self.source, self.piece, joined([Rep("\\", SInt(n / 2)), *tail]))


def escapes(p, f, s):
    """p.sub(f, s) for an escaped text."""
    ctx, it = current(), current().interp
    if s.lang is None:
        raise Unsupported("substitution in the text")
    left = s.lang.meet(R.found(TOKENS, "fullmatch").complement()).witness()
    ctx.oblige("unescape:what is no sequence of tokens is refused", left is None, f"not refused: {left!r}")
    t = R.parse(p)
    items = R.unwrap(t)
    if not (len(items) >= 2 and items[0][0] is C.MAX_REPEAT and items[0][1][0] == 1 and items[0][1][1] is C.MAXREPEAT):
        raise Unsupported("pattern of another form")
    one = R.unwrap(items[0][1][2])
    if len(one) != 1 or R.chars_of(*one[0], t.state.flags) != BACK:
        raise Unsupported("pattern of another form")
    alts = alternatives(items[1:], t.state.flags)
    if any(c.has(92) for a in alts for c in a) or any(not a for a in alts):
        raise Unsupported("pattern of another form")
    # one piece: n backslashes, then what is after them up to the next one
    n = SInt(ctx.int("backslashes").e)
    ctx.assume(n.e >= 0)
    kind = ctx.pick([None, *LENGTH], "piece")
    if kind is None:  # pairs of backslashes and plain text; some of it may look like an escape
        ctx.assume(n.e % 2 == 0)
        k = ctx.choose(1 + len(alts), "what is after the backslashes looks like an escape")
        if k == 0:
            r = joined([Rep("\\", n), Plain()])
        else:
            ctx.assume(n.e > 0)
            a = alts[k - 1]
            w = word(a)
            if w is None:
                raise Unsupported("pattern of another form")
            m = Slashes(n, w)
            r = it.call(f, Found({0: m, 1: w}))
            if r is m:
                r = joined([Rep("\\", n), Plain()])
            elif isinstance(r, Cat) and isinstance(r.parts[-1], Word) and r.parts[-1] is w:
                r = joined([*r.parts[:-1], Plain()])
            else:
                r = joined([*parts(r), Plain()])
        return Subbed(s, (n, None, None), r)
    ctx.assume(n.e % 2 == 1)
    v = SInt(ctx.int("number of the character").e)
    ctx.assume(v.e >= 0)
    ctx.assume(v.e < 16 ** LENGTH[kind])
    w = Word(kind, v, LENGTH[kind])
    r = None
    for a in alts:
        h = hits(a, kind)
        if h is None:
            raise Unsupported("pattern that matches some escapes")
        if h:
            if len(a) != 1 + LENGTH[kind]:
                cut = Word(kind, SInt(v.e / 16 ** (LENGTH[kind] + 1 - len(a))), len(a) - 1)
                r = joined([*parts(it.call(f, Found({0: Slashes(n, cut), 1: cut}))), Hex(w), Plain()])
                break
            r = joined([*parts(it.call(f, Found({0: Slashes(n, w), 1: w}))), Plain()])
            break
    if r is None:
        r = joined([Rep("\\", n), w, Plain()])
    return Subbed(s, (n, kind, v), r)


def alternatives(items, flags):
    """All sequences of sets of characters that it matches, in order of preference."""
    out = [[]]
    for op, av in items:
        s = R.chars_of(op, av, flags)
        if s is not None:
            new = [[s]]
        elif op is C.SUBPATTERN and not av[1] and not av[2]:
            new = alternatives(av[3], flags)
        elif op is C.BRANCH:
            new = [x for a in av[1] for x in alternatives(a, flags)]
        elif op is C.MAX_REPEAT and av[1] is not C.MAXREPEAT and av[1] <= 16:
            one = alternatives(av[2], flags)
            if len(one) != 1:
                raise Unsupported("pattern of another form")
            new = [one[0] * k for k in range(av[1], av[0] - 1, -1)]
        else:
            raise Unsupported("pattern of another form")
        out = [a + b for a in out for b in new]
    return out


def word(a):
    """An arbitrary text of a sequence of sets."""
    first = list(a[0].members()) if a[0].size() < 10 else []
    if not first or any(x.minus(HEX).size() for x in a[1:]):
        return None
    c = current().pick(first, "letter")
    v = SInt(current().int("number").e)
    current().assume(v.e >= 0)
    current().assume(v.e < 16 ** (len(a) - 1))
    return Word(c, v, len(a) - 1)


def hits(a, kind):
    """Whether a sequence of sets matches what begins with an escape of a kind:
    always, never, or (None) sometimes."""
    if not a[0].has(ord(kind)):
        return False
    sometimes = len(a) > 1 + LENGTH[kind]
    for x in a[1:1 + LENGTH[kind]]:
        if not x.meet(HEX):
            return False
        if HEX.minus(x):
            sometimes = True
    return None if sometimes else True


class Given(Model):
    """Bytes or an object of another type."""

    def __init__(self, source):
        self.source = source

    def sym_isinstance(self, cls):
        return issubclass(bytes, cls) if self.source is not None else cls is object

    def sym_type(self):
        return bytes if self.source is not None else object

    def decode(self, codec="utf-8", errors="strict"):
        if current().choose(2, "no UTF-8"):
            raise UnicodeDecodeError("utf-8", b"", 0, 1, "invalid start byte")
        if codec.lower().replace("_", "-") not in ("utf-8", "utf8") or errors != "strict":
            return Source(self.source.lang)
        return self.source

    def sym_getattr(self, n):
        if n == "decode" and self.source is not None:
            return self.decode
        raise AttributeError(n)


def setup(ctx):
    it = ctx.interp
    it.hooks["pattern"] = pattern
    it.hooks["repeat"] = repeat
    m = it.models

    def through(name):
        def go(p, *a, **k):
            p = p if isinstance(p, re.Pattern) else re.compile(p)
            return it.call(getattr(p, name), *a, **k) if any(isinstance(x, Model) for x in a) else getattr(p, name)(*a, **k)

        return go

    for n in ("search", "match", "fullmatch", "sub"):
        m[getattr(re, n)] = through(n)

    def bi_int(x=0, *a, **k):
        base = a[0] if a else k.get("base", 10)
        if isinstance(x, Hex):
            if base == 16:
                return x.w.value
            raise Unsupported("digits with another base")
        if isinstance(x, Model):
            raise Unsupported("int of text")
        return it.bi_int(x, *a, **k)

    def bi_chr(n):
        if isinstance(n, SInt):
            if not it.truth(SBool(z3.And(n.e >= 0, n.e < R.TOP))):
                raise ValueError("chr() arg not in range(0x110000)")
            return Code(n)
        return chr(n)

    m[int], m[chr] = bi_int, bi_chr
    return it


def run(it, fn, a):
    try:
        return it.run_function(fn, [a], {}), None
    except (Unsupported, PathEnd):
        raise
    except Exception as x:  # noqa: BLE001
        return None, x


def escape(kind):
    def go(ctx):
        from hdf5storage import pathesc

        it = setup(ctx)
        s = Source()
        a = s if kind == "str" else Given(s if kind == "bytes" else None)
        r, e = run(it, pathesc.escape_path, a)
        o = ctx.oblige
        if kind == "other":
            o("escape:what is no text is refused", isinstance(e, TypeError), f"{r!r} {e!r}")
            ctx.cover("done")
            return
        if e is not None:
            o("escape:every text has a name", kind == "bytes" and isinstance(e, UnicodeDecodeError), repr(e))
            return
        p = parts(r)
        if any(not isinstance(x, (str, Rep, Run, Rest, Source, Mapped)) for x in p):
            raise Unsupported("text of another form")
        info = lambda: f"{r!r}, the text beginning {'with' if s.run else 'without'} a run"  # noqa: E731
        # what each of the pieces means
        means, safe, first, open_ = [], True, True, True
        for x in p:
            if isinstance(x, Rep):
                d = meaning(x.t)
                means.append(("run", d, x.n))
                safe = safe and not set(x.t) & set("/\0")
                if open_:
                    first = first and x.t[:1] != "."
                    if x.t and ctx.must(x.n.e >= 1):
                        open_ = False
            elif isinstance(x, str):
                means.append(("text", meaning(x)))
                safe = safe and not set(x) & set("/\0")
                if open_ and x:
                    first, open_ = first and x[0] != ".", False
            elif isinstance(x, Run):
                c = s.run[0]
                means.append(("run", c, s.run[1]) if not c.has(92) else ("bad",))
                safe = safe and not any(c.has(ord(y)) for y in "/\0")
                if open_:
                    first, open_ = first and not c.has(ord(".")), False
            else:
                over = x.over if isinstance(x, Mapped) else x
                images = x.images if isinstance(x, Mapped) else {}
                kept = (x.chars if isinstance(x, Mapped) else R.Chars()).complement()
                if over is not (s.rest if s.run is not None else s) and over is not s.rest:
                    raise Unsupported("text of another form")
                good = not kept.has(92) and all(meaning(i) == c for c, i in images.items())
                means.append(("rest",) if good else ("bad",))
                safe = safe and not any(kept.has(ord(y)) for y in "/\0") and not any(set(i) & set("/\0") for i in images.values())
                if open_:
                    no = s.notfirst if s.notfirst is not None else R.Chars()
                    first = first and (no.has(46) or not kept.has(46)) and all(i[:1] != "." for c, i in images.items() if not no.has(ord(c)))
                    open_ = False
        o("escape:no slash and no null in a name", safe, info)
        o("escape:no period at the beginning of a name", first, info)
        ok = bool(means) and means[-1] == ("rest",)
        head = means[:-1]
        if s.run is None:
            ok = ok and all(x == ("text", "") for x in head)
        else:
            head = [x for x in head if x != ("text", "")]
            ok = ok and len(head) == 1 and head[0][0] == "run" and (head[0][1] == s.run[0] or isinstance(head[0][1], str) and len(head[0][1]) == 1 and R.Chars.text(head[0][1]) == s.run[0])
            ok = ok and same(head[0][2], s.run[1])
        o("escape:a name means the text it was made of", ok, info)
        ctx.cover("done")

    return go


def unescape(kind):
    def go(ctx):
        from hdf5storage import pathesc

        it = setup(ctx)
        s = Source(R.found(re.compile(r"(?:.|\n)*"), "fullmatch"))
        a = s if kind == "str" else Given(s if kind == "bytes" else None)
        r, e = run(it, pathesc.unescape_path, a)
        o = ctx.oblige
        if kind == "other":
            o("unescape:what is no text is refused", isinstance(e, TypeError), f"{r!r} {e!r}")
            ctx.cover("done")
            return
        tokens = R.found(TOKENS, "fullmatch")
        if e is not None:
            if kind == "bytes" and isinstance(e, UnicodeDecodeError):
                return
            if isinstance(e, (ValueError, OverflowError)) and "chr()" in str(e):
                return  # an escape of a character that does not exist
            wrong = s.lang.meet(tokens).witness()
            o("unescape:only what is no sequence of tokens is refused", isinstance(e, ValueError) and not isinstance(e, UnicodeError) and wrong is None, f"refused: {wrong!r} {e!r}")
            ctx.cover("refused")
            return
        if r is s:
            left = s.lang.meet(R.found(re.compile(r"[^\\]*"), "fullmatch").complement()).witness()
            o("unescape:a text means itself only without backslashes", left is None, repr(left))
            return
        if not isinstance(r, Subbed) or r.source is not s:
            raise Unsupported(f"text of another form {r!r}")
        n, k, v = r.piece
        p = parts(r.image)
        if p and isinstance(p[-1], Plain):
            p = p[:-1]
        half = (n.e - (1 if k else 0)) / 2
        got, i = z3.IntVal(0), 0
        while i < len(p) and (isinstance(p[i], Rep) and p[i].t == "\\" or isinstance(p[i], str) and set(p[i]) == {"\\"}):
            got = got + (p[i].n.e if isinstance(p[i], Rep) else len(p[i]))
            i += 1
        rest = p[i:]
        if k is None:
            ok = not rest and SBool(got == half)
        elif not rest:
            ok = SBool(z3.And(v.e == 92, got == half + 1))
        else:
            ok = len(rest) == 1 and isinstance(rest[0], Code) and SBool(z3.And(rest[0].v.e == v.e, v.e != 92, got == half))
        o("unescape:every piece is read as what it means", ok, lambda: repr(r))
        ctx.cover("read")

    return go


def procedures(tier):
    out = []
    for k in ("str", "bytes", "other"):
        out.append((f"escape_path of {k}", escape(k), dict(must_cover={"done"})))
        out.append((f"unescape_path of {k}", unescape(k), dict(must_cover={"done"} if k == "other" else {"refused", "read"})))
    return out
