"""Shared oracle for set algebra results: exact verse set, ascending, pairwise disjoint, nothing left to merge."""
from model import *

OPS = {"union": lambda a, b: a | b, "intersection": lambda a, b: a & b,
       "difference": lambda a, b: a - b, "sym_difference": lambda a, b: a ^ b}
OPERATORS = {"union": lambda a, b: a | b, "intersection": lambda a, b: a & b,
             "difference": lambda a, b: a - b, "sym_difference": lambda a, b: a ^ b}


def judge(k, bib, got, want_set, opt, what, **d):
    """got: implementation BibleRangeList; want_set: set of positions in bib.uni(opt)."""
    k.transitions += 1
    if not isinstance(got, BibleRangeList):
        k.fail(what + ": not a BibleRangeList", got=got, **d)
        return
    rs = bib.tl(got)
    u, p = bib.uni(opt), bib.pos(opt)
    for s, e in rs:
        if s not in p or e not in p or s > e:
            k.fail(what + ": result has a malformed range", got=bib.s(rs), **d)
            return
    if bib.vset(rs, opt) != want_set:
        w = sorted(want_set)
        k.fail(what + ": wrong verses", got=bib.s(rs), want=[bib.s(u[i]) for i in w], **d)
        return
    for a, b in zip(rs, rs[1:]):
        if not a[1] < b[0]:
            k.fail(what + ": not ascending and disjoint", got=bib.s(rs), **d)
            return
        if bib.adjacent(a, b, opt):
            k.fail(what + ": mergeable ranges left", got=bib.s(rs), **d)
            return
    if rs != [t for g in bib.tn(got) for t in g] or len(got) != len(rs) or bib.tl(reversed(got)) != rs[::-1]:
        k.fail(what + ": inconsistent list", got=bib.s(rs), **d)


SUB = Bible("SUB", [("Gen", [2, 1], ()), ("Jude", [2], ()), ("Psa", [1, 1], {2})])      # 7 verses and a heading
SUB10 = Bible("SUB10", [("Gen", [3, 2], ()), ("Jude", [2], ()), ("Psa", [2, 1], {2})])


def subsets(bib, opt):
    """All sets of verses, as sorted lists of verse positions."""
    n = len(bib.uni(opt))
    return [[i for i in range(n) if m >> i & 1] for m in range(1 << n)]


FORMS = ["runs", "singles", "descending", "evens then odds", "windows", "doubled", "crossing"]


def as_ranges(bib, s, opt, form):
    """A list of model ranges with exactly the verses s, in one of several shapes (up to twice as many ranges as verses)."""
    u = bib.uni(opt)
    runs, cur = [], []
    for i in s:
        if cur and i != cur[-1] + 1:
            runs.append(cur); cur = []
        cur.append(i)
    if cur:
        runs.append(cur)
    if form == "runs":
        ix = [(r[0], r[-1]) for r in runs]
    elif form == "singles":
        ix = [(i, i) for i in s]
    elif form == "descending":
        ix = [(i, i) for i in reversed(s)]
    elif form == "evens then odds":
        ix = [(i, i) for i in s[::2]] + [(i, i) for i in s[1::2]]
    elif form == "windows":         # overlapping pairs within each run, and the whole run last
        ix = [w for r in runs for w in [(a, b) for a, b in zip(r, r[1:])] + [(r[0], r[-1])]]
    elif form == "doubled":
        ix = [(i, i) for i in s for _ in range(2)]
    else:                           # every start of a run to every end of the rest, from the back: nested ranges
        ix = [w for r in reversed(runs) for w in [(a, r[-1]) for a in reversed(r)]]
    return [(u[a], u[b]) for a, b in ix]
