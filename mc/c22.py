"""C22: verse-0 conversions."""
from model import *

BOUNDS = {"quick": "every verse of the real Bible (with headings) and every chapter's first verses as range endpoints; every range (verse 0 and multi-book incl.) of small Bibles A, B, C, D; "
                   "all lists of <= 2 ranges in every grouping of B and C, of 3 ranges of C's edge ranges; all 4 global options" '; alternating data sets with shared objects',
          "thorough": "as quick plus all lists of <= 2 ranges of A and D, of 3 ranges of C"}
ASSUMPTIONS = []


def t01(t):
    return (t[0], t[1], 1) if t[2] == 0 else t


def t10(bib, t):
    return (t[0], t[1], 0) if t[2] == 1 and t[1] in bib.v0[t[0]] else t


def verse(k, bib, t, opt):
    k.states += 1
    x = bib.V(t)
    d = dict(bible=bib.name, verse=bib.s(t), options=opt)
    a, b = x.verse_0_to_1(), x.verse_1_to_0()
    k.eq(bib.tv(a), t01(t), "verse_0_to_1", **d)
    k.eq(bib.tv(b), t10(bib, t), "verse_1_to_0", **d)
    k.eq(bib.tv(a.verse_0_to_1()), t01(t), "verse_0_to_1 twice", **d)
    k.eq(bib.tv(b.verse_1_to_0()), t10(bib, t), "verse_1_to_0 twice", **d)
    if t[2]:
        k.eq(bib.tv(b.verse_0_to_1()), t, "to 0 and back", **d)
    k.eq(bib.tv(x), t, "verse changed", **d)
    k.traces += 1


def rng(k, bib, r, opt):
    k.states += 1
    x = bib.R(r)
    d = dict(bible=bib.name, range=bib.s(r), options=opt)
    w01, w10 = tuple(map(t01, r)), tuple(t10(bib, t) for t in r)
    a, b = x.verse_0_to_1(), x.verse_1_to_0()
    k.eq(bib.tr(a), w01, "verse_0_to_1", **d)
    k.eq(bib.tr(b), w10, "verse_1_to_0", **d)
    k.eq(bib.tr(a.verse_0_to_1()), w01, "verse_0_to_1 twice", **d)
    k.eq(bib.tr(b.verse_1_to_0()), w10, "verse_1_to_0 twice", **d)
    if r[0][2] and r[1][2]:
        k.eq(bib.tr(b.verse_0_to_1()), r, "to 0 and back", **d)
    k.eq(bib.tr(x), r, "range changed", **d)
    k.traces += 1


def lst(k, bib, l, opt):
    k.states += 1
    d = dict(bible=bib.name, list=bib.s(l), options=opt)
    x, y = bib.L(l), bib.L(l)
    w01 = [[tuple(map(t01, r)) for r in g] for g in l]
    w10 = [[tuple(t10(bib, t) for t in r) for r in g] for g in l]
    vx, vy = list(x.groups), list(y.groups)
    k.eq(x.verse_0_to_1(), None, "return value", **d)
    k.eq(y.verse_1_to_0(), None, "return value", **d)
    k.eq(bib.tn(x), w01, "verse_0_to_1", **d)
    k.eq(bib.tn(y), w10, "verse_1_to_0", **d)
    k.eq(bib.tl(reversed(x)), [r for g in w01 for r in g][::-1], "backward iteration", **d)
    k.eq([[bib.tr(r) for r in v] for v in vy], w10, "group views taken before", **d)
    k.eq((len(x), len(y)), (sum(map(len, l)),) * 2, "length", **d)
    x.verse_0_to_1()
    y.verse_1_to_0()
    k.eq(bib.tn(x), w01, "verse_0_to_1 twice", **d)
    k.eq(bib.tn(y), w10, "verse_1_to_0 twice", **d)
    if all(t[2] for g in l for r in g for t in r):
        y.verse_0_to_1()
        k.eq(bib.tn(y), l, "to 0 and back", **d)
    k.traces += 1


def real(k, shard, n):
    bib = REAL
    for opt in OPTS:
        bibleref.flags = FLAGS[opt]
        for i, t in enumerate(bib.uni("Z")):
            if i % n == shard:
                k.case = (t, opt)
                verse(k, bib, t, opt)
                if t[2] < 2:
                    for e in {bib.last(t[0], t[1]), bib.last(t[0]), bib.last(bib.n - 1), (t[0], t[1], 1)}:
                        if t <= e:
                            rng(k, bib, (t, e), opt)
                    rng(k, bib, (bib.first(0), t), opt) if t >= bib.first(0) else None
        k.eq(bibleref.flags, FLAGS[opt], "global options changed")
    k.sample(bib.s(t))


def small(k, bib):
    bib.install()
    for opt in OPTS:
        bibleref.flags = FLAGS[opt]
        for t in bib.uni("Z"):
            verse(k, bib, t, opt)
        for r in bib.ranges("Z"):
            k.case = (bib.name, r, opt)
            rng(k, bib, r, opt)
        k.eq(bibleref.flags, FLAGS[opt], "global options changed")


def lists(k, bib, m, step, shard, n):
    bib.install()
    rs = bib.ranges("Z")[::step]
    for opt in OPTS:
        bibleref.flags = FLAGS[opt]
        if shard == 0:
            lst(k, bib, [], opt)
        for i, seq in enumerate(itertools.product(rs, repeat=m)):
            if i % n == shard:
                for sz in set_partitions_seq(m):
                    k.case = (bib.name, seq, sz, opt)
                    lst(k, bib, nest(seq, sz), opt)
    k.sample(bib.s(nest(seq, sz)))


def jobs(tier):
    out = shards("real", real, (), 8) + [(f"small-{b.name}", small, (b,)) for b in (A, B, C, D)]
    for b in (B, C):
        out += shards(f"lists1-{b.name}", lists, (b, 1, 1), 1) + shards(f"lists2-{b.name}", lists, (b, 2, 1), 4)
    out += shards("lists3-C", lists, (C, 3, 2), 4)
    out += [("revisit", revisit, (small,)), ("revisit-lists", revisit, (lists, 2, 1, 0, 4))]
    if tier == "thorough":
        for b in (A, D):
            out += shards(f"lists2-{b.name}", lists, (b, 2, 1), 16)
        out += shards("lists3full-C", lists, (C, 3, 1), 16)
    return out
