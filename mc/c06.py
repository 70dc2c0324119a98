"""C06: set algebra on ranges."""
from sets import *

BOUNDS = {"quick": "all pairs of ranges (multi-book included), range x verse, of small Bibles A (15 verses), C, D, and range x all "
                   "lists of at most 2 ranges of B, C; 8 option modes; range x every verse set of a 7-verse Bible as lists of up to 14 ranges in 7 shapes; real Bible: windows around every chapter and book edge, all pairs of 91 long ranges" '; alternating data sets with shared objects',
          "thorough": "additionally range x all lists of at most 3 ranges of C and at most 2 of E, pairs over larger Bibles"}
ASSUMPTIONS = ["operands with a verse-0 endpoint are only considered while the verse-0 option is in effect",
               "ranges in different books are adjacent only while multi-book is in effect (documented by BibleVerse.add)"]


def pair(k, bib, r1, x, r2, y, mode, kw, kind, sets):
    opt = mode[0]
    a, b = sets
    d = dict(bible=bib.name, a=bib.s(r1), b=bib.s(r2), b_is=kind, mode=mode)
    k.case = d
    for name, f in OPS.items():
        w = f(a, b)
        judge(k, bib, getattr(x, name)(y, **kw), w, opt, name, **d)
        if not kw:
            judge(k, bib, OPERATORS[name](x, y), w, opt, name + " operator", **d)
    k.traces += 1


def preds(k, bib, r1, x, r2s, y, mode, kw, kind):
    """r2s: list of model ranges making up operand y"""
    opt = mode[0]
    d = dict(bible=bib.name, a=bib.s(r1), b=bib.s(r2s), b_is=kind, mode=mode)
    k.case = d
    disj = all(r[1] < r1[0] or r[0] > r1[1] for r in r2s)
    k.eq(x.is_disjoint(y), disj, "is_disjoint", **d)
    k.eq(x.contains(y), all(r1[0] <= r[0] and r[1] <= r1[1] for r in r2s), "contains", **d)
    k.eq(y in x, all(r1[0] <= r[0] and r[1] <= r1[1] for r in r2s), "in", **d)
    k.eq(x.surrounds(y), all(r1[0] < r[0] and r[1] < r1[1] for r in r2s), "surrounds", **d)
    k.eq(x.is_adjacent(y, **kw), disj and any(bib.adjacent(r1, r, opt) for r in r2s), "is_adjacent", **d)


def pairs(k, bib, shard, n):
    bib.install()
    for mode in MODES:
        kw = set_mode(mode); opt = mode[0]
        rs = bib.ranges(opt)
        xs = [bib.R(r) for r in rs]
        sets = [bib.vset([r], opt) for r in rs]
        vs = [bib.V(r[0]) if r[0] == r[1] else None for r in rs]
        for i, r1 in enumerate(rs):
            if i % n != shard:
                continue
            k.states += 1
            for j, r2 in enumerate(rs):
                pair(k, bib, r1, xs[i], r2, xs[j], mode, kw, "range", (sets[i], sets[j]))
                preds(k, bib, r1, xs[i], [r2], xs[j], mode, kw, "range")
                if vs[j] is not None:
                    pair(k, bib, r1, xs[i], r2, vs[j], mode, kw, "verse", (sets[i], sets[j]))
                    preds(k, bib, r1, xs[i], [r2], vs[j], mode, kw, "verse")
            k.eq(bib.tr(xs[i]), r1, "operand changed", a=bib.s(r1))
    k.sample(f"{bib.name}: {bib.s(r1)} with {bib.s(r2)} under {mode}")


def lists(k, bib, maxlen, modes, shard, n):
    bib.install()
    for mode in modes:
        kw = set_mode(mode); opt = mode[0]
        rs = bib.ranges(opt)
        i = 0
        for ln in range(0, maxlen + 1):
            for seq in itertools.product(rs, repeat=ln):
                i += 1
                if i % n != shard:
                    continue
                k.states += 1
                lst = bib.L([list(seq)])
                b = bib.vset(seq, opt)
                for r1 in rs:
                    x = bib.R(r1)
                    pair(k, bib, r1, x, list(seq), lst, mode, kw, "list", (bib.vset([r1], opt), b))
                    preds(k, bib, r1, x, list(seq), lst, mode, kw, "list")
                k.eq(bib.tn(lst), [list(seq)] if seq else [], "list operand changed", b=bib.s(list(seq)))
    k.sample(f"{bib.name}: {bib.s(r1)} with list {bib.s(list(seq))} under {mode}")


def subset_lists(k, bib, modes, shard, n):
    """Every range with every set of verses, the set given as a list in several shapes (long lists)."""
    bib.install()
    for mode in modes:
        kw = set_mode(mode); opt = mode[0]
        rs = bib.ranges(opt)
        xs = [(r, bib.R(r), bib.vset([r], opt)) for r in rs]
        for i, s in enumerate(subsets(bib, opt)):
            if i % n != shard:
                continue
            k.states += 1
            for form in (FORMS if i % 4 == 1 else FORMS[i % 4::4]):
                ms = as_ranges(bib, s, opt, form)
                lst = bib.L([ms] if i % 3 else [[m] for m in ms])
                for r1, x, a in xs[i % 2::2]:
                    pair(k, bib, r1, x, ms, lst, mode, kw, "list (" + form + ")", (a, set(s)))
                    preds(k, bib, r1, x, ms, lst, mode, kw, "list (" + form + ")")
                k.eq(bib.tl(lst), ms, "list operand changed", b=bib.s(ms))


def fresh(k, bib):
    """Results belong to the caller: editing one changes neither operands nor later results."""
    bib.install()
    for mode in MODES:
        kw = set_mode(mode); opt = mode[0]
        rs = bib.ranges(opt)
        for r1 in rs:
            for r2 in rs:
                x, y = bib.R(r1), bib.R(r2)
                k.states += 1
                for name, f in OPS.items():
                    k.case = (bib.name, r1, r2, name, mode)
                    tamper(getattr(x, name)(y, **kw))
                    w = f(bib.vset([r1], opt), bib.vset([r2], opt))
                    judge(k, bib, getattr(x, name)(y, **kw), w, opt, name + " after editing an earlier result", a=bib.s(r1), b=bib.s(r2), mode=mode)
                    l = bib.L([[r2]])
                    tamper(getattr(x, name)(l, **kw))
                    judge(k, bib, getattr(x, name)(l, **kw), w, opt, name + " after editing an earlier result", a=bib.s(r1), b=bib.s([r2]), mode=mode)
                k.traces += 1


def long_real(k, shard, n):
    """Ranges of the real Bible spanning many chapters and books, pairwise."""
    bib = REAL
    for mode in [("M", "global"), ("Z", "arg")]:
        kw = set_mode(mode); opt = mode[0]
        p, u = bib.pos(opt), bib.uni(opt)
        ix = {e.name: i for e, i in bib.bidx.items()}
        pts = [(0, 1, 1), (0, 50, 26), (1, 1, 1), bib.first(ix["Psa"], 3, opt), bib.last(ix["Psa"], 119), (ix["Psa"], 119, 100), bib.last(ix["Psa"]),
               bib.first(ix["Obad"], 1, opt), bib.last(ix["Mal"]), bib.first(ix["Matt"], None, opt), bib.last(ix["Jude"]), (65, 1, 1), (65, 22, 21)]
        pts = sorted(set(pts))
        rs = [(a, b) for i, a in enumerate(pts) for b in pts[i:]]
        for i, r1 in enumerate(rs):
            if i % n != shard:
                continue
            k.states += 1
            x, a = bib.R(r1), (p[r1[0]], p[r1[1]])
            for r2 in rs:
                y, b = bib.R(r2), (p[r2[0]], p[r2[1]])
                preds(k, bib, r1, x, [r2], y, mode, kw, "range")
                d = dict(a=bib.s(r1), b=bib.s(r2), mode=mode)
                k.case = d
                iv = interval_ops(a, b)
                for name in OPS:
                    w = bib.merge([(u[s], u[e]) for s, e in iv[name]], opt)
                    k.eq(bib.tl(getattr(x, name)(y, **kw)), w, name, **d)
                k.traces += 1


def interval_ops(a, b):
    """The four set operations on two integer intervals, as lists of intervals (not necessarily merged)."""
    (a0, a1), (b0, b1) = a, b
    inter = [(max(a0, b0), min(a1, b1))] if max(a0, b0) <= min(a1, b1) else []
    minus = lambda p, q, r, s: [i for i in ((p, min(q, r - 1)), (max(p, s + 1), q)) if i[0] <= i[1]]
    d1, d2 = minus(a0, a1, b0, b1), minus(b0, b1, a0, a1)
    return {"union": [a, b], "intersection": inter, "difference": d1, "sym_difference": d1 + d2}


def real(k, shard, n, tier):
    bib = REAL
    for mode in [("", "global"), ("M", "arg"), ("MZ", "global"), ("Z", "arg")]:
        kw = set_mode(mode); opt = mode[0]
        p, u = bib.pos(opt), bib.uni(opt)
        for b in range(bib.n):
            if b % n != shard:
                continue
            for c in range(1, bib.nch(b) + 1):
                if tier == "quick" and c not in (1, 2, bib.nch(b)) and b not in (0, 65):
                    continue
                f, l = p[bib.first(b, c, opt)], p[bib.last(b, c)]
                pts = sorted({max(0, f - 1), f, l, min(len(u) - 1, l + 1)})
                rs = [(u[i], u[j]) for i in pts for j in pts if i <= j]
                for r1 in rs:
                    k.states += 1
                    for r2 in rs:
                        pair(k, bib, r1, bib.R(r1), r2, bib.R(r2), mode, kw, "range",
                             (bib.vset([r1], opt), bib.vset([r2], opt)))
                        preds(k, bib, r1, bib.R(r1), [r2], bib.R(r2), mode, kw, "range")


def jobs(tier):
    out = []
    out += shards("pairs-A", pairs, (A,), 24)
    out += shards("pairs-D", pairs, (D,), 16)
    out += shards("pairs-C", pairs, (C,), 1)
    out += shards("lists-C", lists, (C, 2, MODES), 8)
    out += shards("lists-B", lists, (B, 2, MODES if tier == "thorough" else MODES[:4]), 16)
    out += shards("subsets", subset_lists, (SUB, [("", "global"), ("M", "arg")]), 16)
    out += [("fresh-" + b.name, fresh, (b,)) for b in (B, C)]
    out += shards("long", long_real, (), 8)
    out += [("revisit", revisit, (pairs, 0, 1)), ("revisit-lists", revisit, (lists, 2, [("Z", "global")], 0, 24))]
    if tier == "thorough":
        out += shards("subsets10", subset_lists, (SUB10, MODES), 64)
        out += shards("lists3-C", lists, (C, 3, MODES), 32)
        out += shards("lists-E", lists, (E, 2, MODES), 24)
    out += [(f"real#{i}", real, (i, 16, tier)) for i in range(16)]
    return out
