"""C09: totals and bounding ranges of lists."""
from model import *

BOUNDS = {"quick": "all lists of 1-2 ranges of Bible A, 3 ranges of B, 0-3 of C, all 8 modes; all lists of 4-7 over 3 ranges; real lists of 6-60 elements with each of 8 special elements at every position (and pairs of them in lists of 5 and 8); all lists of 1-2 edge-to-edge ranges of the real Bible" '; alternating data sets with shared objects; very long lists',
          "thorough": "all lists of 3 ranges of A, E and D, 4 of C"}
ASSUMPTIONS = ["ranges with a verse-0 endpoint are only considered while the verse-0 option is in effect",
               "counts of a range are those of C04 (verses, chapters, books touched or wholly included)"]


def stats(bib, r, opt):
    vs = bib.verses(r, opt)
    ch, bk = {}, {}
    for b, c, v in vs:
        ch[b, c] = ch.get((b, c), 0) + 1
        bk[b] = bk.get(b, 0) + 1
    wholec = sum(1 for (b, c), m in ch.items() if m == bib.maxv[b][c - 1] - bib.minv(b, c, "Z" in opt) + 1)
    wholeb = sum(1 for b, m in bk.items() if m == sum(bib.maxv[b][c - 1] - bib.minv(b, c, "Z" in opt) + 1 for c in range(1, bib.nch(b) + 1)))
    return len(vs), len(ch), wholec, len(bk), wholeb


def one(k, bib, seq, st, objs, mode, kw):
    opt = mode[0]
    k.states += 1
    k.case = (bib.name, seq, mode)
    if bib.shared is not None:
        l = bib.SL([[r] for r in seq])
    else:
        l = BibleRangeList()
        for j, r in enumerate(seq):
            l.append(objs[r], new_group=(j % 2 == 1))
    want = tuple(sum(st[r][j] for r in seq) for j in range(5))
    got = (l.verse_count(**kw), l.chap_count(**kw), l.chap_count(whole=True, **kw), l.book_count(**kw), l.book_count(whole=True, **kw))
    k.transitions += 5
    if got != want:
        k.fail("counts (verses, chapters, whole chapters, books, whole books)", got=got, want=want, list=bib.s(list(seq)), mode=mode,
               bible=bib.name)
    k.traces += 1
    if not seq:
        return
    s, e = min(r[0] for r in seq), max(r[1] for r in seq)
    w = [(s, e), (bib.first(s[0], s[1], opt), bib.last(e[0], e[1])), (bib.first(s[0], None, opt), bib.last(e[0]))]
    g = [bib.tr(l.range()), bib.tr(l.chap_range(**kw)), bib.tr(l.book_range(**kw))]
    k.transitions += 3
    for name, a, b in zip(("range", "chap_range", "book_range"), g, w):
        if a != b:
            k.fail(name, got=bib.s(a), want=bib.s(b), list=bib.s(list(seq)), mode=mode, bible=bib.name)
    if bib.tl(l) != list(seq):
        k.fail("list changed by a query", got=bib.s(bib.tl(l)), list=bib.s(list(seq)), mode=mode)


def lists(k, bib, lo, hi, modes, ranges, shard, n):
    bib.install()
    for mode in modes:
        kw = set_mode(mode); opt = mode[0]
        rs = bib.ranges(opt) if ranges is None else ranges(bib, opt)
        st = {r: stats(bib, r, opt) for r in rs}
        objs = {r: bib.R(r) for r in rs}
        i = 0
        for ln in range(lo, hi + 1):
            for seq in itertools.product(rs, repeat=ln):
                i += 1
                if i % n == shard:
                    one(k, bib, seq, st, objs, mode, kw)
    k.sample({"bible": bib.name, "list": bib.s(list(seq)), "mode": str(mode)})


class _Memo(dict):
    def __init__(self, f):
        self.f = f

    def __missing__(self, x):
        self[x] = y = self.f(x)
        return y


def longer(k, sizes, pair_sizes, modes, shard, n):
    REAL.install()
    for mode in modes:
        kw = set_mode(mode); opt = mode[0]
        st, objs = _Memo(lambda r: stats(REAL, r, opt)), _Memo(REAL.R)
        for i, seq in enumerate(placed(opt, sizes, pair_sizes)):
            if i % n == shard and not any(r[1][0] - r[0][0] > 30 for r in seq):
                one(k, REAL, seq, st, objs, mode, kw)
    k.sample({"bible": "real", "list": REAL.s(seq), "mode": str(mode)})


def warm(l):
    l.verse_count(), l.chap_count(), l.chap_count(whole=True), l.book_count(), l.book_count(whole=True), len(l)
    if len(l):
        l.range(), l.chap_range(), l.book_range()


def probe(bib):
    def f(k, l, groups, opt, hist):
        seq = [r for g in groups for r in g]
        want = tuple(sum(stats(bib, r, opt)[j] for r in seq) for j in range(5))
        got = (l.verse_count(), l.chap_count(), l.chap_count(whole=True), l.book_count(), l.book_count(whole=True))
        k.transitions += 5
        if got != want:
            k.fail("counts after edits", got=got, want=want, list=bib.s(seq), history=hist)
        if seq:
            s, e = min(r[0] for r in seq), max(r[1] for r in seq)
            w = [(s, e), (bib.first(s[0], s[1], opt), bib.last(e[0], e[1])), (bib.first(s[0], None, opt), bib.last(e[0]))]
            g = [bib.tr(l.range()), bib.tr(l.chap_range()), bib.tr(l.book_range())]
            k.transitions += 3
            if g != w:
                k.fail("bounding ranges after edits", got=bib.s(g), want=bib.s(w), list=bib.s(seq), history=hist)
    return f


def histories(k, bib, opts, depth, shard, n):
    import hist
    hist.explore(k, bib, opts, depth, warm, probe(bib), None, shard, n)


def edge_ranges(bib, opt):
    """Ranges of the real Bible around boundaries."""
    ix = {e.name: i for e, i in bib.bidx.items()}
    pts = [(ix["Gen"], 1, 1), (ix["Gen"], 50, 26), (ix["Psa"], 3, 0 if "Z" in opt else 1), (ix["Psa"], 150, 6), (ix["Obad"], 1, 1),
           (ix["Jude"], 1, 25), (ix["Rev"], 22, 21)]
    return [(a, b) for a in pts for b in pts if a <= b]


def few(bib, opt):
    u = bib.uni(opt)
    return [(u[0], u[1]), (u[1], u[-2]), (u[2], u[2])]


def jobs(tier):
    out = shards("A-1-2", lists, (A, 1, 2, MODES, None), 16)
    out += shards("B-3", lists, (B, 3, 3, [("", "global"), ("MZ", "arg")], None), 8)
    out += shards("C-0-3", lists, (C, 0, 3, [("Z", "global"), ("M", "arg")], None), 4)
    out += shards("long-B", lists, (B, 4, 7, [("", "global"), ("MZ", "arg")], few), 8)
    out += shards("real-edges-pairs", lists, (REAL, 2, 2, [("M", "arg")], edge_ranges), 16)
    out += shards("real-edges", lists, (REAL, 1, 1, MODES, edge_ranges), 4)
    out += shards("histories", histories, (E, ["M"], 2), 8)
    out += shards("histories-Z", histories, (C, ["Z"], 2), 8)
    out += shards("longer", longer, ((6, 9, 13, 21, 34, 60), (5, 8), [("", "global")]), 16)
    out.append(("revisit", revisit, (lists, 0, 2, MODES, None, 0, 3)))
    import huge
    out.append(("huge", huge.totals, ()))
    if tier == "thorough":
        out += shards("longer-all", longer, ((6, 9, 13, 21, 34, 60, 100), (5, 8, 12), MODES), 64)
        out += shards("histories-3", histories, (E, ["", "M"], 3), 64)
        out += shards("B-3-all", lists, (B, 3, 3, MODES, None), 32)
        out += shards("C-4", lists, (C, 4, 4, MODES[:4], None), 32)
        out += shards("D-3", lists, (D, 3, 3, [("", "arg"), ("Z", "global")], None), 64)
        out += shards("E-3", lists, (E, 3, 3, MODES, None), 64)
        out += shards("A-3", lists, (A, 3, 3, [("", "global"), ("MZ", "global")], None), 64)
        out += shards("real-edges-2", lists, (REAL, 2, 2, MODES, edge_ranges), 32)
    return out
