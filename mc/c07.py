"""C07: set algebra on lists, plain and in place."""
from sets import *
from grouping import natural_groups
import copy

BOUNDS = {"quick": "all pairs of lists of at most 2 ranges of Bible T (4 verses, 111 lists) and C (one operand <=2, other <=1, both kinds), "
                   "aliased operands, verse/range/list operands, 4-8 option modes; all in-place chains of length 2 from every list of "
                   "at most 2 ranges of T with every range/list-of-1 operand and itself, and the reachable-state closure of in-place updates; all pairs of verse sets of a 7-verse Bible as lists of up to 28 ranges in several shapes; lists of up to 75 real chapters / 33 books" '; all pairs of longer placed lists; alternating data sets with shared objects; operation histories that reuse the same objects; very long lists (1100 ranges) under every operation',
          "thorough": "pairs of lists of at most 2 ranges of C and B, list of at most 3 x list of at most 2 of T, chains of length 3"}
ASSUMPTIONS = ["operands with a verse-0 endpoint are only considered while the verse-0 option is in effect",
               "ranges in different books merge only while multi-book is in effect"]
INPLACE = {"union": "__ior__", "intersection": "__iand__", "difference": "__isub__", "sym_difference": "__ixor__"}


def iop(name, a, b):
    """Run the augmented assignment and return what the variable is bound to."""
    if name == "union":
        a |= b
    elif name == "intersection":
        a &= b
    elif name == "difference":
        a -= b
    else:
        a ^= b
    return a


def seqs(rs, maxlen):
    for ln in range(0, maxlen + 1):
        yield from itertools.product(rs, repeat=ln)


def full(k, bib, got, want_set, opt, what, **d):
    judge(k, bib, got, want_set, opt, what, **d)
    if isinstance(got, BibleRangeList):
        n = bib.tn(got)
        if n != natural_groups(bib, [r for g in n for r in g], opt):
            k.fail(what + ": not naturally grouped", got=bib.s(n), **d)


def preds(k, bib, s1, l1, s2, y, a, b, mode, kw, kind):
    d = dict(bible=bib.name, a=bib.s(list(s1)), b=bib.s(list(s2)), b_is=kind, mode=mode)
    k.eq(l1.is_disjoint(y), not (a & b), "is_disjoint", **d)
    k.eq(l1.contains(y, **kw), b <= a, "contains", **d)
    if not kw:
        k.eq(y in l1, b <= a, "in", **d)


def one(k, bib, s1, s2, mode, kw, kinds=("list",), inplace=True):
    opt = mode[0]
    n1 = [list(s1)] if s1 else []
    n2 = [[r] for r in s2]          # other operand: one group each
    a, b = bib.vset(s1, opt), bib.vset(s2, opt)
    k.states += 1
    for kind in kinds:
        l1 = bib.SL(n1)
        y = bib.SL(n2) if kind == "list" else bib.R(s2[0]) if kind == "range" else bib.V(s2[0][0])
        d = dict(bible=bib.name, a=bib.s(list(s1)), b=bib.s(list(s2)), b_is=kind, mode=mode)
        k.case = d
        for name, f in OPS.items():
            w = f(a, b)
            res = getattr(l1, name)(y, **kw)
            full(k, bib, res, w, opt, name, **d)
            if res is l1:
                k.fail(name + ": returned its operand", **d)
            if not kw:
                full(k, bib, OPERATORS[name](l1, y), w, opt, name + " operator", **d)
            k.eq(bib.tn(l1), n1, name + ": left operand changed", **d)
            if kind == "list":
                k.eq(bib.tn(y), n2, name + ": right operand changed", **d)
            else:
                k.eq(bib.tr(y) if kind == "range" else bib.tv(y), s2[0] if kind == "range" else s2[0][0], name + ": operand changed", **d)
            if inplace:
                l3 = bib.L(n1)
                getattr(l3, name + "_update")(y, **kw)
                k.eq(bib.tn(l3), bib.tn(res), name + "_update differs from " + name, **d)
                full(k, bib, l3, w, opt, name + "_update", **d)
                if kind == "list":
                    k.eq(bib.tn(y), n2, name + "_update: right operand changed", **d)
                if not kw:
                    l4 = bib.L(n1)
                    l5 = iop(name, l4, y)
                    if l5 is not l4:
                        k.fail(name + " augmented assignment rebinds the variable", got=l5, **d)
                    k.eq(bib.tn(l4), bib.tn(res), name + " augmented assignment", **d)
        preds(k, bib, s1, l1, s2, y, a, b, mode, kw, kind)
        k.eq(bib.tn(l1), n1, "left operand changed by a query", **d)
        k.traces += 1


def pairs(k, bib, max1, max2, modes, shard, n):
    bib.install()
    for mode in modes:
        kw = set_mode(mode)
        rs = bib.ranges(mode[0])
        i = 0
        for s1 in seqs(rs, max1):
            i += 1
            if i % n != shard:
                continue
            for s2 in seqs(rs, max2):
                kinds = ["list"]
                if len(s2) == 1:
                    kinds.append("range")
                    if s2[0][0] == s2[0][1]:
                        kinds.append("verse")
                one(k, bib, s1, s2, mode, kw, kinds)
    k.sample(f"{bib.name}: {bib.s(list(s1))} with {bib.s(list(s2))} under {mode}")


def subset_pairs(k, bib, modes, forms, shard, n):
    """Every pair of verse sets, each given as a list of up to twice as many ranges in several shapes (long lists)."""
    bib.install()
    for mode in modes:
        kw = set_mode(mode); opt = mode[0]
        subs = subsets(bib, opt)
        for i, a in enumerate(subs):
            if i % n != shard:
                continue
            for j, b in enumerate(subs):
                for f1, f2 in forms:
                    s1, s2 = as_ranges(bib, a, opt, f1), as_ranges(bib, b, opt, f2)
                    one(k, bib, s1, s2, mode, kw, inplace=((i + j) % 4 == 0))
    k.sample(f"{bib.name}: {bib.s(s1)} with {bib.s(s2)} under {mode}")


def fresh(k, bib):
    """Results belong to the caller: editing one changes neither operands nor later results."""
    bib.install()
    for mode in MODES:
        kw = set_mode(mode); opt = mode[0]
        rs = bib.ranges(opt)
        for r1 in rs:
            for r2 in rs:
                k.states += 1
                l, y = bib.L([[r1]]), bib.L([[r2]])
                for name, f in OPS.items():
                    k.case = (bib.name, r1, r2, name, mode)
                    w = f(bib.vset([r1], opt), bib.vset([r2], opt))
                    tamper(getattr(l, name)(y, **kw))
                    d = dict(a=bib.s([r1]), b=bib.s([r2]), mode=mode)
                    full(k, bib, getattr(l, name)(y, **kw), w, opt, name + " after editing an earlier result", **d)
                    l3 = bib.L([[r1]])
                    getattr(l3, name + "_update")(y, **kw)
                    y.append(bib.R(r1))         # the right operand may be edited later ...
                    full(k, bib, l3, w, opt, name + "_update, after editing the other operand", **d)
                    y.pop()
                    tamper(l3)                  # ... and so may the result
                    k.eq((bib.tn(l), bib.tn(y)), ([[r1]], [[r2]]), name + ": operands changed by editing the result", **d)
                k.traces += 1


def long_real(k):
    """Lists of many chapters / books of the real Bible, in several orders."""
    bib = REAL
    for mode in (("", "global"), ("MZ", "arg")):
        kw = set_mode(mode); opt = mode[0]
        ps = bib.bidx[BibleBook.Psa]
        ch = [(bib.first(ps, c, opt), bib.last(ps, c)) for c in range(1, 151)]
        bk = [(bib.first(b, None, opt), bib.last(b)) for b in range(bib.n)]
        pool = {"even chapters": ch[1::2], "every third chapter, descending": ch[::-3], "chapters 20-140 in halves": ch[80:140] + ch[20:80],
                "books": bk[::-2], "one verse of every fifth chapter": [(r[1], r[1]) for r in ch[::5]], "third books": bk[1::3]}
        for (n1, s1), (n2, s2) in itertools.product(pool.items(), repeat=2):
            k.case = (n1, n2, mode)
            one(k, bib, s1, s2, mode, kw)


def longer(k, sizes, pair_sizes, mode, shard, n):
    """Lists of the real Bible with special elements at every position, against single ranges and against a list, both ways round."""
    REAL.install()
    kw = set_mode(mode); opt = mode[0]
    m = REAL.bidx[BibleBook.Mark]
    ys = [[((m, 1, 3), (m, 1, 3))], [((m, 2, 3), (m, 3, 5)), ((m, 2, 1), (m, 2, 1))], [((m, 2, 9), (m, 2, 9)), ((m, 5, 8), (m, 16, 3)), ((m, 2, 4), (m, 2, 6))]]
    for i, seq in enumerate(x for x in placed(opt, sizes, pair_sizes) if all(r[1][0] - r[0][0] < 4 for r in x)):
        if i % n == shard:
            y = ys[i % 3]
            one(k, REAL, seq, y, mode, kw)
            one(k, REAL, y, seq, mode, kw)


def aliased(k, bib, maxlen):
    bib.install()
    for mode in MODES:
        kw = set_mode(mode); opt = mode[0]
        rs = bib.ranges(opt)
        for s1 in seqs(rs, maxlen):
            k.states += 1
            a = bib.vset(s1, opt)
            for sizes in set_partitions_seq(len(s1)):
                n1 = nest(list(s1), sizes)
                d = dict(bible=bib.name, a=bib.s(n1), mode=mode)
                k.case = d
                for name, f in OPS.items():
                    w = f(a, a)
                    l = bib.L(n1)
                    full(k, bib, getattr(l, name)(l, **kw), w, opt, name + " with itself", **d)
                    k.eq(bib.tn(l), n1, name + " with itself: operand changed", **d)
                    getattr(l, name + "_update")(l, **kw)
                    full(k, bib, l, w, opt, name + "_update with itself", **d)
                    if not kw:
                        l = bib.L(n1)
                        r = iop(name, l, l)
                        if r is not l:
                            k.fail(name + " augmented with itself rebinds", **d)
                        full(k, bib, r, w, opt, name + " augmented with itself", **d)
                l = bib.L(n1)
                k.eq(l.contains(l, **kw), True, "contains itself", **d)
                k.eq(l.is_disjoint(l), not s1, "disjoint with itself", **d)
                k.traces += 1


def chains(k, bib, depth, mode, maxlen, shard, n):
    """All chains of `depth` in-place updates on one list object, observed after each step."""
    bib.install()
    kw = set_mode(mode); opt = mode[0]
    rs = bib.ranges(opt)
    operands = [(r,) for r in rs] + ["self"]
    starts = list(seqs(rs, maxlen))
    steps = [(name, o) for name in OPS for o in operands]
    for i, s1 in enumerate(starts):
        if i % n != shard:
            continue
        for chain in itertools.product(steps, repeat=depth):
            k.states += 1
            k.case = (bib.name, s1, chain, mode)
            l = bib.L([list(s1)] if s1 else [])
            cur = bib.vset(s1, opt)
            for name, o in chain:
                if o == "self":
                    y, b = l, cur
                else:
                    y, b = bib.L([list(o)]), bib.vset(o, opt)
                if kw:
                    getattr(l, name + "_update")(y, **kw)
                else:
                    l = iop(name, l, y)
                cur = OPS[name](cur, b)
            full(k, bib, l, cur, opt, "in-place chain", start=bib.s(list(s1)), chain=str(chain), mode=mode)
            k.traces += 1
    k.sample(f"{bib.name}: start {bib.s(list(s1))} then {chain} under {mode}")


def closure(k, bib, mode):
    """Reachable-state closure of in-place updates, carried out on live objects."""
    bib.install()
    kw = set_mode(mode); opt = mode[0]
    rs = bib.ranges(opt)
    seen = {(): None}
    work = [()]
    while work:
        st = work.pop()
        for name in OPS:
            for r in rs:
                l = bib.L([list(g) for g in st])
                y = bib.L([[r]])
                before = bib.vset([x for g in st for x in g], opt)
                k.case = (bib.name, st, name, r, mode)
                getattr(l, name + "_update")(y, **kw)
                full(k, bib, l, OPS[name](before, bib.vset([r], opt)), opt, "reachable update", state=bib.s([list(g) for g in st]),
                     op=name, operand=bib.s(r), mode=mode)
                nst = tuple(tuple(g) for g in bib.tn(l))
                if nst not in seen:
                    seen[nst] = None
                    work.append(nst)
                k.traces += 1
    k.states += len(seen)
    k.sample(f"{bib.name}: closure under {mode} has {len(seen)} states")


def histories(k, bib, opts, depth, shard, n):
    """The same questions after every history of edits on one list object, asked before and between the edits too."""
    import hist
    for opt in opts:
        bib.install()
        bibleref.flags = FLAGS[opt]
        others = [bib.R(r) for r in hist.values(bib, opt)[:3]]
        others.append(BibleRangeList([others[2], others[0]]))
        sets_ = [bib.vset(x, opt) for x in [[r] for r in hist.values(bib, opt)[:3]] + [[hist.values(bib, opt)[2], hist.values(bib, opt)[0]]]]

        def warm(l):
            for y in others[1:]:
                y in l, l.is_disjoint(y), l | y, l & y, l - y, l ^ y
            others[0].start in l
            others[3] |= others[3] - l

        def probe(k, l, groups, opt, h):
            a = bib.vset([r for g in groups for r in g], opt)
            for y, b in zip(others, sets_):
                d = dict(bible=bib.name, history=h, operand=str(y), options=opt)
                k.eq(y in l, b <= a, "in, after edits", **d)
                k.eq(l.is_disjoint(y), not a & b, "is_disjoint, after edits", **d)
                for name, f in OPS.items():
                    full(k, bib, OPERATORS[name](l, y), f(a, b), opt, name + " after edits", **d)
                if isinstance(y, BibleRangeList):
                    full(k, bib, y - l, b - a, opt, "difference with an edited list", **d)
            k.eq(bib.tn(l), groups, "list after edits and questions", bible=bib.name, history=h)
        hist.explore(k, bib, [opt], depth, warm, probe, None, shard, n)


def invalid(k):
    T.install()
    l = T.L([[T.ranges("")[0]]])
    for name in OPS:
        for bad in (None, 5, "Gen 1", [T.R(T.ranges("")[0])]):
            for meth in (name, name + "_update"):
                k.transitions += 1
                k.states += 1
                r = call(getattr(l, meth), bad)
                if r[0] == "ok":
                    k.fail("operand of a wrong type accepted", op=meth, operand=bad, got=r[1])
                k.eq(T.tn(l), [[T.ranges("")[0]]], "list changed by a refused operation", op=meth, operand=bad)
    k.traces += 1


def jobs(tier):
    out = [("invalid", invalid, ())]
    g = MODES[:4]
    two = [("", "global"), ("M", "arg")]
    four = two + [("Z", "global"), ("MZ", "arg")]
    out += shards("pairs-T", pairs, (T, 2, 2, [("", "global")]), 16)
    out += shards("pairs-T-M", pairs, (T, 2, 2, [("M", "arg")]), 8)
    out += shards("pairs-C21", pairs, (C, 2, 1, four), 8)
    out += shards("pairs-C12", pairs, (C, 1, 2, four), 4)
    out += shards("pairs-C21-N", pairs, (C, 2, 1, [("", "arg")]), 4)
    out += shards("subsets", subset_pairs, (SUB, [("", "global")], [("singles", "evens then odds")]), 16)
    out += shards("subsets-M", subset_pairs, (SUB, [("M", "arg")], [("crossing", "descending")]), 16)
    out += [("long", long_real, ())] + [("fresh-" + b.name, fresh, (b,)) for b in (C, T)]
    out += [("aliased-T", aliased, (T, 2)), ("aliased-C", aliased, (C, 2)), ("aliased-B", aliased, (B, 1))]
    for m in two:
        out.append((f"chain2-T1-{m[0]}", chains, (T, 2, m, 0, 0, 1)))
    for b in (B, C, T):
        for m in g:
            out.append((f"closure-{b.name}-{m[0]}", closure, (b, m)))
    out += shards("histories", histories, (E, ["M"], 2), 16)
    out += shards("histories-C", histories, (C, ["", "Z"], 1), 4)
    out += shards("longer", longer, ((6, 11, 25), (5,), ("", "global")), 16) + shards("longer-MZ", longer, ((6,), (5,), ("MZ", "arg")), 16)
    out += [("revisit", revisit, (pairs, 1, 1, four, 0, 5)), ("revisit-2", revisit, (pairs, 2, 1, [("MZ", "arg")], 0, 50))]
    import huge
    out += [(f"huge-{o}-{s}", huge.sets, ((o, s),)) for o in OPS for s in ("fives", "rest and last")] + [("huge-relations", huge.tests, ())]
    if tier == "thorough":
        for m in MODES:
            out += shards(f"longer-{m[0]}-{m[1]}", longer, ((6, 11, 25), (5, 8), m), 32)
        out += shards("histories-2", histories, (C, OPTS, 2), 32)
        out += shards("histories-3", histories, (E, ["", "M"], 3), 128)
        for m in four:
            out += shards(f"subsets-{m[0]}-all", subset_pairs, (SUB, [m], list(itertools.product(FORMS, repeat=2))), 64)
        out += [("aliased-B2", aliased, (B, 2)), ("aliased-T3", aliased, (T, 3))]
        out += shards("pairs-T22-all", pairs, (T, 2, 2, MODES), 64)
        out += shards("pairs-C21-all", pairs, (C, 2, 1, MODES), 16)
        out += shards("pairs-C12-all", pairs, (C, 1, 2, MODES), 16)
        out += shards("pairs-B12", pairs, (B, 1, 2, four), 16)
        out += shards("pairs-T32", pairs, (T, 3, 2, MODES[:2]), 64)
        out += shards("pairs-C22", pairs, (C, 2, 2, g), 64)
        out += shards("pairs-B22", pairs, (B, 2, 2, two), 64)
        for m in (("", "global"), ("M", "global")):
            out += shards(f"chain2-T-{m[0]}", chains, (T, 2, m, 1), 8)
            out += shards(f"chain3-T-{m[0]}", chains, (T, 3, m, 1), 64)
        for m in g:
            out.append((f"closure-A-{m[0]}", closure, (A, m)))
    return out
