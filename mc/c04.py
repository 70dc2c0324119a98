"""C04: a range is exactly its verses."""
from model import *

BOUNDS = {"quick": "all ranges (multi-book included) of small Bibles A, B, C, D, E x 8 option modes; real Bible: all ranges between "
                   "neighbouring chapter edges, long ranges between chapter edges, ranges over up to 5 books, whole Bible" '; every interleaving of two iterators over ranges of up to 3 verses; alternating data sets with shared range objects',
          "thorough": "as quick plus two larger small Bibles (26 and 30 verses) and, in the real Bible, all chapter-edge pairs within each book"}
ASSUMPTIONS = ["for ranges with a verse-0 endpoint while the verse-0 option is off, only iteration, verse count and membership are decided"]

F = Bible("F", [("Gen", [3, 1, 4], ()), ("Obad", [3], {1}), ("Psa", [2, 3, 1, 2], {2, 4}), ("Jude", [1], ()), ("Rev", [3, 2], {2})])
G = Bible("G", [("Jude", [4], ()), ("Obad", [1], ()), ("Gen", [1, 1, 1, 5], {4}), ("Psa", [3, 3], {1, 2}), ("Rev", [1, 7], ())])


def check_range(k, bib, r, mode, kw, members=True, iterate=True):
    opt = mode[0]
    d = dict(bible=bib.name, range=bib.s(r), mode=mode)
    k.case = (bib.name, r, mode)
    k.states += 1
    x = bib.R(r)
    (sb, sc, sv), (eb, ec, ev) = r
    p, u = bib.pos(opt), bib.uni(opt)
    i, j = p[r[0]], p[r[1]]
    if iterate and not kw:
        for again in range(2):
            vs = [bib.tv(v) for v in x]
            k.eq(vs, u[i:j + 1], "iteration", **d)
    k.eq(x.verse_count(**kw), j - i + 1, "verse_count", **d)
    # chapters / books touched and wholly included
    ch = {}
    bk = {}
    chs = [(b, c) for b in range(sb, eb + 1) for c in range(1, bib.nch(b) + 1) if (b, c) >= (sb, sc) and (b, c) <= (eb, ec)]
    whole_c = [bc for bc in chs if bib.first(*bc, opt) >= r[0] and bib.last(*bc) <= r[1]]
    whole_b = [b for b in range(sb, eb + 1) if bib.first(b, None, opt) >= r[0] and bib.last(b) <= r[1]]
    k.eq(x.chap_count(**kw), len(chs), "chap_count", **d)
    k.eq(x.chap_count(whole=True, **kw), len(whole_c), "chap_count(whole)", **d)
    k.eq(x.book_count(**kw), eb - sb + 1, "book_count", **d)
    k.eq(x.book_count(whole=True, **kw), len(whole_b), "book_count(whole)", **d)
    k.eq(x.is_single_verse(), r[0] == r[1], "is_single_verse", **d)
    k.eq(x.is_whole_chap(**kw), len(chs) == 1 and len(whole_c) == 1, "is_whole_chap", **d)
    k.eq(x.is_whole_book(**kw), sb == eb and len(whole_b) == 1, "is_whole_book", **d)
    k.eq(x.spans_start_chap(**kw), (sb, sc) in whole_c, "spans_start_chap", **d)
    k.eq(x.spans_end_chap(**kw), (eb, ec) in whole_c, "spans_end_chap", **d)
    k.eq(x.spans_start_book(**kw), sb in whole_b, "spans_start_book", **d)
    k.eq(x.spans_end_book(**kw), eb in whole_b, "spans_end_book", **d)
    k.eq(bib.tr(x.chap_range(**kw)), (bib.first(sb, sc, opt), bib.last(eb, ec)), "chap_range", **d)
    k.eq(bib.tr(x.book_range(**kw)), (bib.first(sb, None, opt), bib.last(eb)), "book_range", **d)
    if members:
        for t in u:
            v = bib.V(t)
            want = r[0] <= t <= r[1]
            k.eq(x.contains(v), want, "contains", verse=bib.s(t), **d)
            k.eq(v in x, want, "in", verse=bib.s(t), **d)
    else: # only around the endpoints, and at the same numbers in other books
        near = {u[q] for q in (0, i - 1, i, i + 1, (i + j) // 2, j - 1, j, j + 1, len(u) - 1) if 0 <= q < len(u)}
        for b in {max(0, sb - 1), min(bib.n - 1, eb + 1), sb, eb}:
            near |= {t for t in ((b, sc, sv), (b, ec, ev), (b, sc + 1, sv), (b, ec - 1, ev), (b, sc, ev), (b, ec, sv)) if t in p}
        for t in near:
            k.eq(bib.V(t) in x, r[0] <= t <= r[1], "in", verse=bib.s(t), **d)
    k.eq(bib.tr(x), r, "range changed by queries", **d)
    k.traces += 1


def small(k, bib, shard, n):
    bib.install()
    for mode in MODES:
        kw = set_mode(mode)
        for i, r in enumerate(bib.ranges(mode[0])):
            if i % n == shard:
                check_range(k, bib, r, mode, kw)
    k.sample(f"{bib.name}: {bib.s(r)} under {mode}")


def headings(k, bib):
    """Existing ranges that start or end at a heading, while the verse-0 option is off: iteration, count and membership include headings."""
    bib.install()
    p, u = bib.pos("Z"), bib.uni("Z")
    for mode in MODES:
        if "Z" in mode[0]:
            continue
        kw = set_mode(mode)
        for r in bib.ranges("Z"):
            if r[0][2] and r[1][2]:
                continue
            k.states += 1
            x = bib.R(r)
            d = dict(bible=bib.name, range=bib.s(r), mode=mode)
            k.case = d
            want = u[p[r[0]]:p[r[1]] + 1]
            if not kw:
                k.eq([bib.tv(v) for v in x], want, "iteration", **d)
            k.eq(x.verse_count(**kw), len(want), "verse_count", **d)
            for t in u:
                k.eq(bib.V(t) in x, r[0] <= t <= r[1], "in", verse=bib.s(t), **d)
            k.traces += 1


def real(k, shard, n, tier):
    bib = REAL
    for mode in [("", "global"), ("Z", "global"), ("M", "arg"), ("MZ", "arg")] if tier == "quick" else MODES:
        kw = set_mode(mode); opt = mode[0]
        p, u = bib.pos(opt), bib.uni(opt)
        for b in range(bib.n):
            if b % n != shard:
                continue
            rs = set()
            edges = []
            for c in range(1, bib.nch(b) + 1):
                f, l = bib.first(b, c, opt), bib.last(b, c)
                around = [u[i] for i in {max(0, p[f] - 1), p[f], p[f] + 1, p[l] - 1, p[l], min(len(u) - 1, p[l] + 1)}]
                edges += [f, l]
                rs |= {(s, e) for s in around for e in around if s <= e}
            starts = {1, 2, bib.nch(b) // 2, bib.nch(b) - 1} # long ranges
            rs |= {(s, e) for s in edges for e in edges if s <= e and s[1] in starts and (e[1] % 10 in (0, 1, 9) or e[1] == bib.nch(b))
                   and (s[1] == 1 or s[1] + 9 < e[1] or b == 18)}
            if tier == "thorough":
                rs |= {(s, e) for s in edges for e in edges if s <= e and (e[1] - s[1] < 25 or s[1] == 1)}
            rs.add((bib.first(b, None, opt), bib.last(b)))
            if b + 1 < bib.n:
                rs.add((bib.first(b, None, opt), bib.last(b + 1)))
            for b2 in range(b + 1, min(bib.n, b + 5)): # several books
                for s in (bib.first(b, None, opt), bib.last(b), bib.first(b, bib.nch(b), opt)):
                    for e in (bib.first(b2, None, opt), bib.last(b2), bib.last(b2, 1)):
                        rs.add((s, e))
            for r in sorted(rs):
                check_range(k, bib, r, mode, kw, members=False, iterate=(p[r[1]] - p[r[0]] < 400))
    k.sample(f"real: {bib.s(r)} under {mode}")


def whole(k):
    bib = REAL
    for mode in MODES:
        kw = set_mode(mode); opt = mode[0]
        check_range(k, bib, (bib.uni(opt)[0], bib.uni(opt)[-1]), mode, kw, members=False)


def interleaved(k, bib, mx, shard, n):
    """Several iterations in progress at once: every interleaving of the steps of two iterators over one range object, over two equal ranges and over two different ones
    (one may be abandoned part way), with other questions asked in between."""
    bib.install()
    i = 0
    for opt in OPTS:
        bibleref.flags = FLAGS[opt]
        u, p = bib.uni(opt), bib.pos(opt)
        rs = [r for r in bib.ranges(opt) if p[r[1]] - p[r[0]] < mx]
        for a in rs:
            for b in rs:
                i += 1
                if i % n != shard:
                    continue
                want = [u[p[r[0]]:p[r[1]] + 1] for r in (a, b)]
                steps = [len(w) + 1 for w in want]
                for same in ((True, False) if a == b else (False,)):
                    x = bib.R(a)
                    y = x if same else bib.R(b)
                    for first in itertools.combinations(range(sum(steps)), steps[0]):
                        k.states += 1
                        k.case = (bib.name, opt, a, b, same, first)
                        its = [iter(x), iter(y)]
                        got = [[], []]
                        for t in range(sum(steps)):
                            w = 0 if t in first else 1
                            v = next(its[w], None)
                            k.transitions += 1
                            if v is not None:
                                got[w].append(bib.tv(v))
                            if t == 1:
                                (x.verse_count(), y.verse_count(), bib.V(a[0]) in y, bib.V(b[1]) in x)
                        if got != want:
                            k.fail("interleaved iterations", bible=bib.name, ranges=bib.s([a, b]), options=opt, same_object=same, steps_of_first=first, got=got, want=want)
        k.traces += 1


def jobs(tier):
    out = [("whole", whole, ())] + [("headings-" + b.name, headings, (b,)) for b in (A, B, C, D)]
    for b in (A, B, C, D, E) + (F, G):
        out += shards("small-" + b.name, small, (b,), 8 if b in (A, D, F, G) else 1)
    out += [(f"real#{i}", real, (i, 22, tier)) for i in range(22)]
    out += shards("interleaved", interleaved, (B, 4 if tier == "thorough" else 3), 8)
    out += [("revisit", revisit, (small, 0, 1)), ("revisit-headings", revisit, (headings,))]
    return out
