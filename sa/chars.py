"""Abstract characters: texts whose length is known and whose characters are not.

A text of the abstract program may contain characters of the Unicode private
area, which stand for an unknown character of a class (a set of characters).
Each of them is one unknown character: two occurrences of the same one are
equal, two different ones may be equal or not. What the program does with such
a text is decided only when it is the same for every character of the class;
otherwise the answer is unknown (`None` or `Unknown`)."""

from __future__ import annotations

import re
from dataclasses import dataclass

try:
    from re import _constants as C
    from re import _parser as P
except ImportError:  # Python 3.10
    import sre_constants as C
    import sre_parse as P

BASE = 0xE000
SIZE = 64
ASCII = frozenset(chr(i) for i in range(128)) - {"\n"}
LOWER = frozenset("abcdefghijklmnopqrstuvwxyz")
UPPER = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGIT = frozenset("0123456789")
BLANK = frozenset(" ")
SPACES = frozenset(c for c in ASCII if c.isspace())
PUNCT = frozenset(c for c in ASCII if c.isprintable() and not c.isalnum() and c != " ")

# the characters out of ASCII that are no spaces
INK = "ink"

# name: (ASCII characters, are the characters out of ASCII included)
CLASSES = {
    "any": (ASCII, True),
    "lower": (LOWER, False),
    "letter": (LOWER | UPPER, False),
    "digit": (DIGIT, False),
    "word": (LOWER | UPPER | DIGIT | {"_"}, False),
    # no blank, no punctuation mark
    "plain": (ASCII - PUNCT - SPACES, INK),
    # anything but a blank
    "solid": (ASCII - BLANK, True),
    # no space and none of the characters that start an element
    "start": (ASCII - SPACES - frozenset("/-@<:[.*#="), INK),
    # no space and nothing that has a meaning in the text of a paragraph
    "text": (ASCII - SPACES - frozenset("~^_*`()[]\\\"$%{}"), INK),
    # no space and nothing that has a meaning among arguments
    "arg": (ASCII - SPACES - frozenset("\\=,\"#*@()[]{}`"), INK),
    # no space and nothing that has a meaning for variables
    "var": (ASCII - SPACES - frozenset("\\`{}"), INK),
    "upper": (UPPER, False),
    # a character that can be the delimiter of a block
    "fence": (ASCII - BLANK - {"/"}, True),
    # no letter, digit or one of _ . + - = and no blank
    "odd": (PUNCT - frozenset("_.+-=!:#"), INK),
}
NAMES = list(CLASSES)


def unknown(cls, n=0):
    """The n-th unknown character of a class."""
    return chr(BASE + NAMES.index(cls) * SIZE + n)


def text(spec):
    """A text written with `{class}` or `{class3}` for unknown characters, each
    one different; `{class:3}` gives three of them."""
    count = {}

    def one(m):
        k = count.get(m[1], 0)
        n = int(m[2] or 1)
        count[m[1]] = k + n
        return "".join(unknown(m[1], k + i) for i in range(n))

    return re.sub(r"<([a-z]+)(?::(\d+))?>", lambda m: one(m) if m[1] in CLASSES else m[0], spec)


def charset(c):
    i = ord(c) - BASE
    if 0 <= i < SIZE * len(NAMES):
        return CLASSES[NAMES[i // SIZE]]
    return None


def soft(v):
    """Has the text unknown characters?"""
    return isinstance(v, str) and any(BASE <= ord(c) < BASE + SIZE * len(NAMES) for c in v)


def within(c, chars, others=False, unsure=False):
    """Is the character one of `chars` (ASCII), or out of ASCII when `others`?
    None when it depends on which character of the class it is."""
    cs = charset(c)
    if cs is None:
        if ord(c) < 128:
            return c in chars
        return None if unsure else c in chars or others
    if unsure == "space":
        # only spaces may be in the set
        unsure = cs[1] != INK
    inside = cs[0] & chars
    if len(inside) == len(cs[0]) and (not cs[1] or others) and not (cs[1] and unsure):
        return True
    if not inside and (not cs[1] or not others) and not (cs[1] and unsure):
        return False
    return None


def same(a, b):
    """Are two characters the same?"""
    if a == b:
        return True
    ca, cb = charset(a), charset(b)
    if ca is None and cb is None:
        return False
    if ca is None:
        a, b, ca, cb = b, a, cb, ca
    if cb is None:
        if ord(b) < 128:
            if b in ca[0]:
                return None if len(ca[0]) > 1 or ca[1] else True
            return False
        return None if ca[1] else False
    return None if ca[0] & cb[0] or (ca[1] and cb[1]) else False


def equal(a, b):
    if len(a) != len(b):
        return False
    r = True
    for x, y in zip(a, b):
        s = same(x, y)
        if s is False:
            return False
        if s is None:
            r = None
    return r


class Unknown(Exception):
    pass


def sure(x):
    if x is None:
        raise Unknown
    return x


def find(hay, needle, start=0):
    for i in range(start, len(hay) - len(needle) + 1):
        if sure(equal(hay[i : i + len(needle)], needle)):
            return i
    return -1


def split(s, sep, limit=-1):
    out = []
    i = 0
    while limit < 0 or len(out) < limit:
        j = find(s, sep, i)
        if j < 0:
            break
        out.append(s[i:j])
        i = j + len(sep)
    return out + [s[i:]]


def strip(s, chars, left, right):
    sp = chars is None
    chars = SPACES | {"\n"} if sp else frozenset(chars)
    if any(soft(c) for c in chars):
        raise Unknown
    i, j = 0, len(s)
    while left and i < j and sure(within(s[i], chars, unsure="space" if sp else False)):
        i += 1
    while right and j > i and sure(within(s[j - 1], chars, unsure="space" if sp else False)):
        j -= 1
    return s[i:j]


def method(s, name, a, kw):
    """Result of a method of a text with unknown characters."""
    if kw:
        raise Unknown
    if name in ("startswith", "endswith") and len(a) == 1:
        rs = []
        for x in a[0] if isinstance(a[0], tuple) else (a[0],):
            if len(x) > len(s):
                rs.append(False)
            else:
                rs.append(equal(s[: len(x)] if name == "startswith" else s[len(s) - len(x) :], x))
        return True if True in rs else sure(None) if None in rs else False
    if name in ("removeprefix", "removesuffix") and len(a) == 1:
        x = a[0]
        if not x or not method(s, "startswith" if name == "removeprefix" else "endswith", a, {}):
            return s
        return s[len(x) :] if name == "removeprefix" else s[: -len(x)]
    if name in ("strip", "lstrip", "rstrip") and len(a) <= 1:
        return strip(s, a[0] if a else None, name != "rstrip", name != "lstrip")
    if name == "split" and a and a[0]:
        return split(s, a[0], *a[1:])
    if name == "splitlines" and not a:
        raise Unknown
    if name == "replace" and len(a) == 2 and a[0]:
        return a[1].join(split(s, a[0]))
    if name in ("find", "index") and 1 <= len(a) <= 2:
        r = find(s, *a)
        if r < 0 and name == "index":
            raise Unknown
        return r
    if name == "count" and len(a) == 1 and a[0]:
        return len(split(s, a[0])) - 1
    if name in ("partition",) and len(a) == 1 and a[0]:
        i = find(s, a[0])
        return (s, "", "") if i < 0 else (s[:i], a[0], s[i + len(a[0]) :])
    if name in ("rpartition",) and len(a) == 1 and a[0]:
        n = len(split(s, a[0])) - 1
        if not n:
            return ("", "", s)
        i = -1
        for _ in range(n):
            i = find(s, a[0], i + 1 if i < 0 else i + len(a[0]))
        return (s[:i], a[0], s[i + len(a[0]) :])
    if name in ("isspace",) and not a:
        rs = [within(c, SPACES | {"\n"}, unsure="space") for c in s]
        return False if False in rs else sure(None) if None in rs else bool(s)
    if name == "join" and len(a) == 1:
        return s.join(a[0])
    if name in ("ljust", "rjust", "center", "zfill"):
        return getattr(s, name)(*a)
    if name == "encode":
        raise Unknown
    raise Unknown


def contains(hay, needle):
    """`needle in hay`, or None."""
    if needle == "":
        return True
    if len(needle) == 1 and not soft(hay):
        return within(needle, frozenset(c for c in hay if ord(c) < 128)) if all(ord(c) < 128 for c in hay) else None
    try:
        return find(hay, needle) >= 0
    except Unknown:
        return None


# -------------------------------------------------------- regular expressions
@dataclass(frozen=True)
class Match:
    """Result of a match: the text, the spans of its groups and their names."""

    string: str
    spans: tuple
    names: tuple

    def number(self, g):
        return dict(self.names)[g] if isinstance(g, str) else g

    def __getitem__(self, g):
        return self.one(g)

    def one(self, g):
        a, b = self.spans[self.number(g)]
        return None if a < 0 else self.string[a:b]


@dataclass(frozen=True)
class Regex:
    """A compiled regular expression."""

    pattern: str
    flags: int = 0


CATEGORIES = {
    C.CATEGORY_DIGIT: DIGIT,
    C.CATEGORY_SPACE: SPACES | {"\n"},
    C.CATEGORY_WORD: LOWER | UPPER | DIGIT | {"_"},
}
NEGATED = {
    C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT,
    C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE,
    C.CATEGORY_NOT_WORD: C.CATEGORY_WORD,
}


def exact(c, av):
    """Is a known character in a category?"""
    if av in NEGATED:
        return not exact(c, NEGATED[av])
    if av is C.CATEGORY_SPACE:
        return c.isspace()
    if av is C.CATEGORY_DIGIT:
        return c.isdecimal()
    return c.isalnum() or c == "_"


def inset(c, items):
    """Is the character in the set of a regular expression? None when unknown."""
    negate = any(op is C.NEGATE for op, av in items)
    cs = charset(c)
    chars = set()
    # are the characters of the class that are out of ASCII in the set?
    outer = []
    for op, av in items:
        if op is C.NEGATE:
            continue
        if op is C.LITERAL:
            av = (av, av)
        elif op is C.CATEGORY:
            if av not in CATEGORIES and av not in NEGATED:
                raise Unknown
            if cs is None:
                outer.append(exact(c, av))
                continue
            pos = av in CATEGORIES
            chars |= CATEGORIES[av] if pos else (ASCII | {"\n"}) - CATEGORIES[NEGATED[av]]
            space = (av if pos else NEGATED[av]) is C.CATEGORY_SPACE
            outer.append(not pos if space and cs[1] == INK else None)
            continue
        elif op is not C.RANGE:
            raise Unknown
        if cs is None:
            outer.append(av[0] <= ord(c) <= av[1])
            continue
        chars |= {chr(i) for i in range(av[0], min(av[1], 127) + 1)}
        if av[1] >= 128:
            outer.append(None)
    out = True if True in outer else None if None in outer else False
    if cs is None:
        return out != negate
    inside = cs[0] & chars
    parts = set()
    if inside:
        parts.add(True)
    if cs[0] - chars:
        parts.add(False)
    if cs[1]:
        parts.add(out)
    if len(parts) != 1 or None in parts:
        return None
    return parts.pop() != negate


def match(pattern, s, mode="match", flags=0, start=0):
    """A Match, None when there is none; raises Unknown."""
    try:
        tree = P.parse(pattern, flags)
    except (re.error, TypeError, ValueError):
        raise Unknown from None
    if tree.state.flags & ~(re.UNICODE | re.DOTALL | re.VERBOSE):
        raise Unknown
    dot = bool(tree.state.flags & re.DOTALL)
    n = tree.state.groups
    fuel = [200000]

    def seq(items, i, pos, groups, k):
        fuel[0] -= 1
        if fuel[0] < 0:
            raise Unknown
        if i == len(items):
            return k(pos, groups)
        op, av = items[i]

        def rest(p, g):
            return seq(items, i + 1, p, g, k)

        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos >= len(s):
                return None
            if op is C.ANY:
                t = dot or s[pos] != "\n"
            elif op is C.IN:
                t = inset(s[pos], av)
            else:
                t = same(s[pos], chr(av))
                t = t if t is None or op is C.LITERAL else not t
            if t is False:
                return None
            r = rest(pos + 1, groups)
            if t is None and r is not None:
                raise Unknown
            return r
        if op is C.SUBPATTERN:
            num, add, sub, p = av
            if add or sub:
                raise Unknown

            def close(q, g):
                if num is not None:
                    g = {**g, num: (pos, q)}
                return rest(q, g)

            return seq(list(p), 0, pos, groups, close)
        if op is C.BRANCH:
            for alt in av[1]:
                r = seq(list(alt), 0, pos, groups, rest)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)

            def loop(cnt, q, g, last=None):
                def again():
                    # an iteration that starts where the previous one did is empty
                    return seq(p, 0, q, g, lambda q2, g2: loop(cnt + 1, q2, g2, q))

                if cnt < lo:
                    return again()
                if op is C.MAX_REPEAT:
                    r = again() if cnt < hi and q != last else None
                    return r if r is not None else rest(q, g)
                r = rest(q, g)
                return r if r is not None else (again() if cnt < hi and q != last else None)

            return loop(0, pos, groups)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                return rest(pos, groups) if pos == 0 else None
            if av is C.AT_END:
                return rest(pos, groups) if pos == len(s) or (pos == len(s) - 1 and s[pos] == "\n") else None
            if av is C.AT_END_STRING:
                return rest(pos, groups) if pos == len(s) else None
            raise Unknown
        if op is C.GROUPREF:
            if av not in groups:
                return None
            a, b = groups[av]
            w = s[a:b]
            t = len(s) - pos >= len(w) and equal(s[pos : pos + len(w)], w)
            if t is False:
                return None
            r = rest(pos + len(w), groups)
            if t is None and r is not None:
                raise Unknown
            return r
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d < 0:
                raise Unknown
            r = seq(list(p), 0, pos, groups, lambda q, g: (q, g))
            if (r is not None) != (op is C.ASSERT):
                return None
            return rest(pos, r[1] if r is not None else groups)
        raise Unknown

    def done(q, g):
        if mode == "fullmatch" and q != len(s):
            return None
        return q, g

    for p0 in range(start, len(s) + 1) if mode == "search" else (start,):
        r = seq(list(tree), 0, p0, {}, done)
        if r is not None:
            q, g = r
            spans = ((p0, q),) + tuple(g.get(i, (-1, -1)) for i in range(1, n))
            return Match(s, spans, tuple(sorted(tree.state.groupdict.items())))
    return None
