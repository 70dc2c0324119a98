"""Reference model of a Bible (versification + order) and the bridge to the implementation.

Model verses are tuples (b, c, v): b = position of the book in the order, so tuple order is canonical order.
Model ranges are (start, end) pairs of such tuples.  Options are sets of letters: 'M' multi-book, 'Z' verse 0."""
import json, os, itertools
import common
common.import_target()
import bibleref
from bibleref import bible_data, BibleRefException
from bibleref.ref import (BibleBook, BibleVerse, BibleRange, BibleRangeList, BibleFlag,
                          InvalidReferenceError, MultibookRangeNotAllowedError, BibleRefParsingError)
from bibleref.util import GroupedList, GroupViewError

with open(os.path.join(common.HERE, "golden.json")) as _f:
    GOLDEN = json.load(_f)
FLAGS = {"": BibleFlag.NONE, "M": BibleFlag.MULTIBOOK, "Z": BibleFlag.VERSE_0, "MZ": BibleFlag.ALL}
OPTS = ["", "M", "Z", "MZ"]
COMPL = {"": "MZ", "M": "Z", "Z": "M", "MZ": ""}
# Ways of having options F in effect: as global options, or as explicit argument while the global options are the opposite
MODES = [(f, "global") for f in OPTS] + [(f, "arg") for f in OPTS]


class Bible:
    def __init__(self, name, books):
        """books: list of (BibleBook name, [max verse per chapter], set of verse-0 chapters), in order."""
        self.name, self.books = name, books
        self.n = len(books)
        self.names = [b[0] for b in books]
        self.maxv = [list(b[1]) for b in books]
        self.v0 = [set(b[2]) for b in books]
        self.enum = [BibleBook[n] for n in self.names]
        self.bidx = {e: i for i, e in enumerate(self.enum)}
        self.shared = None      # when a dict: V, R and SL give the same object for the same value each time
        self._uni = {}
        self._pos = {}
        for z in (False, True):
            u = [(b, c, v) for b in range(self.n) for c in range(1, len(self.maxv[b]) + 1)
                 for v in range(self.minv(b, c, z), self.maxv[b][c - 1] + 1)]
            self._uni[z] = u
            self._pos[z] = {t: i for i, t in enumerate(u)}

    # -- model ---------------------------------------------------------------------------------------------------
    def minv(self, b, c, z):
        return 0 if (z and c in self.v0[b]) else 1

    def uni(self, opt):
        return self._uni["Z" in opt]

    def pos(self, opt):
        return self._pos["Z" in opt]

    def nch(self, b):
        return len(self.maxv[b])

    def first(self, b, c=None, opt=""):
        c = 1 if c is None else c
        return (b, c, self.minv(b, c, "Z" in opt))

    def last(self, b, c=None):
        c = self.nch(b) if c is None else c
        return (b, c, self.maxv[b][c - 1])

    def exists(self, t, opt):
        b, c, v = t
        return 0 <= b < self.n and 1 <= c <= self.nch(b) and self.minv(b, c, "Z" in opt) <= v <= self.maxv[b][c - 1]

    def ranges(self, opt, multi=True):
        u = self.uni(opt)
        return [(s, e) for i, s in enumerate(u) for e in u[i:] if multi or s[0] == e[0]]

    def verses(self, r, opt):
        """Verses of a model range, in order."""
        p, u = self.pos(opt), self.uni(opt)
        return u[p[r[0]]:p[r[1]] + 1]

    def step(self, t, n, opt):
        """The verse n after t under options opt (None if outside), per the documented rules."""
        z = "Z" in opt or t[2] == 0
        u, p = self._uni[z], self._pos[z]
        if "M" not in opt:
            lo, hi = p[self.first(t[0], None, "Z" if z else "")], p[self.last(t[0])]
        else:
            lo, hi = 0, len(u) - 1
        i = p[t] + n
        return u[i] if lo <= i <= hi else None

    def adjacent(self, r1, r2, opt):
        if r1 > r2:
            r1, r2 = r2, r1
        return r1[1] < r2[0] and self.step(r1[1], 1, opt) == r2[0]

    def merge(self, ranges, opt):
        """Smallest sorted list of disjoint non-adjacent ranges covering the same verses."""
        out = []
        for s, e in sorted(ranges):
            if out and (s <= out[-1][1] or self.adjacent(out[-1], (s, e), opt)):
                out[-1] = (out[-1][0], max(out[-1][1], e))
            else:
                out.append((s, e))
        return out

    def vset(self, ranges, opt):
        p = self.pos(opt)
        out = set()
        for s, e in ranges:
            out.update(range(p[s], p[e] + 1))
        return out

    # -- bridge --------------------------------------------------------------------------------------------------
    def install(self):
        d = bible_data()
        d.book_order = list(self.enum)
        d.max_verses = {e: list(m) for e, m in zip(self.enum, self.maxv)}
        d.verse_0s = {e: set(z) for e, z in zip(self.enum, self.v0) if z}
        return self

    def V(self, t):
        """Implementation verse for a model verse."""
        if self.shared is not None:
            if t not in self.shared:
                self.shared[t] = BibleVerse(self.enum[t[0]], t[1], t[2], flags=BibleFlag.ALL)
            return self.shared[t]
        return BibleVerse(self.enum[t[0]], t[1], t[2], flags=BibleFlag.ALL)

    def R(self, r):
        if self.shared is not None:
            if r not in self.shared:
                self.shared[r] = BibleRange(start=self.V(r[0]), end=self.V(r[1]), flags=BibleFlag.ALL)
            return self.shared[r]
        return BibleRange(start=self.V(r[0]), end=self.V(r[1]), flags=BibleFlag.ALL)

    def L(self, nested):
        """Implementation list for a model list of groups of ranges."""
        out = BibleRangeList()
        for g in nested:
            out.append_group([self.R(r) for r in g])
        return out

    def SL(self, nested):
        """A list that the caller does not change."""
        if self.shared is None:
            return self.L(nested)
        key = ("list", tuple(map(tuple, nested)))
        if key not in self.shared:
            self.shared[key] = self.L(nested)
        return self.shared[key]

    def tv(self, v):
        """Model verse of an implementation verse (None for None)."""
        if v is None:
            return None
        if not isinstance(v, BibleVerse):
            return ("not a verse", type(v).__name__, common.short(v, 60))
        return (self.bidx.get(v.book, -1), v.chap_num, v.verse_num)

    def tr(self, r):
        if not isinstance(r, BibleRange):
            return ("not a range", type(r).__name__, common.short(r, 60))
        return (self.tv(r.start), self.tv(r.end))

    def tl(self, lst):
        return [self.tr(r) for r in lst]

    def tn(self, lst):
        return [[self.tr(r) for r in g] for g in lst.groups]

    def s(self, t):
        """Readable form of a model verse / range / list for reports."""
        if isinstance(t, tuple) and len(t) == 3 and isinstance(t[0], int):
            return f"{self.names[t[0]]} {t[1]}:{t[2]}" if 0 <= t[0] < self.n else f"?{t}"
        if isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], tuple):
            return f"{self.s(t[0])}-{self.s(t[1])}"
        if isinstance(t, (list, tuple)):
            return "[" + ", ".join(self.s(x) for x in t) + "]"
        return str(t)


REAL = Bible("real", [(n, GOLDEN["max_verses"][n], set(GOLDEN["verse_0s"].get(n, []))) for n in GOLDEN["order"]])

# Small Bibles. All contain a single-chapter book; verse-0 chapters at the start, middle and end of a book; one-verse chapters.
A = Bible("A", [("Gen", [2, 3], ()), ("Obad", [2], ()), ("Psa", [1, 2, 2], {1, 3}), ("Jude", [1], ())])
B = Bible("B", [("Gen", [2], ()), ("Psa", [1, 1], {2}), ("Jude", [1], ())])
C = Bible("C", [("Obad", [2], ()), ("Gen", [1, 2], {1})])
D = Bible("D", [("Jude", [1], ()), ("Psa", [2, 1, 2], {2}), ("Obad", [2], {1}), ("Ruth", [1, 1], ())])
E = Bible("E", [("Gen", [2, 2], ()), ("Jude", [2], ())])
E2 = Bible("E2", [("Gen", [1, 2, 1], {2}), ("Jude", [3], {1})])    # E's books with other chapters, verses and headings
E3 = Bible("E3", [("Jude", [2], ()), ("Gen", [2, 2], ())])         # E in another order
# A heading starts the first book; the last has two verses and a heading: every kind of end after every kind of start, in other books too.
W = Bible("W", [("Gen", [2, 2], {1}), ("Song", [1, 2], ()), ("Jude", [2], {1})])
T = Bible("T", [("Gen", [1, 1], ()), ("Jude", [2], ())])


def call(fn, *a, **kw):
    """('ok', value) or ('exc', exception class name, exception)."""
    try:
        return ("ok", fn(*a, **kw))
    except Exception as e:
        return ("exc", type(e).__name__, e)


def set_mode(mode):
    """Put options in effect; returns the keyword arguments to pass."""
    opt, how = mode
    if how == "global":
        bibleref.flags = FLAGS[opt]
        return {}
    bibleref.flags = FLAGS[COMPL[opt]]
    return {"flags": FLAGS[opt]}


def revisit(k, fn, *args):
    """The same exploration on Bible E, on others with the same books, and on E again in between, all in one process:
    no result may depend on what the data was before.  The same verse and range objects are used throughout."""
    for bib in (E, E2, E3):
        bib.shared = {}
    for bib in (E, E2, E, E3, E):
        k.extra["data_replacements"] = k.extra.get("data_replacements", 0) + 1
        fn(k, bib, *args)


def tamper(lst):
    """Edit a list an operation returned, as its owner may; later results must not depend on it."""
    if len(lst):
        junk = lst[0]
        lst.append(junk)
        lst.pop(0)
        lst[-1] = lst[0]
    else:
        b = bible_data().book_order[0]
        v = BibleVerse(b, b.max_chap_num(), b.max_verse_num(b.max_chap_num()))
        junk = BibleRange(start=v, end=v)
    lst.clear()
    lst.append(junk)
    lst.append(junk)                # no operation returns the same range twice


def set_partitions_seq(n):
    """All ways to cut a sequence of n items into consecutive non-empty groups (lists of group sizes)."""
    if n == 0:
        return [()]
    out = []
    for cuts in itertools.product((False, True), repeat=n - 1):
        sizes, cur = [], 1
        for c in cuts:
            if c:
                sizes.append(cur); cur = 1
            else:
                cur += 1
        sizes.append(cur)
        out.append(tuple(sizes))
    return out


def placed(opt, sizes, pair_sizes=()):
    """Longer lists of the real Bible: ordinary elements (single verses and short ranges, ascending) with every special element at every
    position, and every pair of special elements at every pair of positions."""
    b = REAL.bidx[BibleBook.Mark]
    z = REAL.bidx[BibleBook.Psa]
    special = [((b, 1, 3), (b, 1, 3)), ((b, 16, 2), (b, 16, 9)), ((b, 1, 2), (b, 16, 4)), (REAL.first(b, None, opt), REAL.last(b)), (REAL.first(b, 3, opt), REAL.last(b, 4)),
               (REAL.first(z, 3, opt), (z, 4, 1)), ((b - 1, 2, 1), (b + 1, 3, 2)), ((b, 5, 7), (b, 5, 9)), (REAL.first(0, None, opt), REAL.last(65))]
    plain = [((b, 2 + i // 8 % 14, 1 + i % 8 * 2), (b, 2 + i // 8 % 14, 1 + i % 8 * 2 + (i % 3 == 1))) for i in range(200)]
    plain = [r for r in plain if REAL.exists(r[1], opt)]
    for n in sizes:
        for x in special:
            for p in range(n):
                yield plain[:p] + [x] + plain[p:n - 1]
    for n in pair_sizes:
        for x, y in itertools.permutations(special, 2):
            for p, q in itertools.combinations(range(n), 2):
                yield plain[:p] + [x] + plain[p:q - 1] + [y] + plain[q - 1:n - 2]


def nest(seq, sizes):
    out, i = [], 0
    for s in sizes:
        out.append(list(seq[i:i + s])); i += s
    return out


def shards(name, fn, args, n):
    return [(f"{name}#{i}", fn, (*args, i, n)) for i in range(n)]
