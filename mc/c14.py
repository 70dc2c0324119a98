"""C14: regrouping."""
from interp import *
from grouping import natural_groups
from c13 import reps

BOUNDS = {"quick": "every list of <=2 ranges of A and D, of 3 ranges of C, of 3 of 26 boundary ranges of A, in every grouping, option modes; "
                   "groups compared with an explicit rule and with the reading of the conventional string; real parser for <=2 of 26 ranges" '; longer placed lists; alternating data sets; lists of 1100 ranges',
          "thorough": "every list of 3 ranges of B, C, E and A, of 4 of 14 boundary ranges"}
ASSUMPTIONS = ["ranges with a verse-0 endpoint are only considered while the verse-0 option is in effect",
               "the reading of the string is only used while the options allow reading it (multi-book ranges need multi-book)"]


def explore(k, bib, gen, lo, hi, modes, real, shard, n):
    bib.install()
    for mode in modes:
        kw = set_mode(mode); opt = mode[0]
        rs = bib.ranges(opt) if gen is None else gen(bib, opt)
        objs = {r: bib.R(r) for r in rs}
        i = 0
        for ln in range(lo, hi + 1):
            for seq in itertools.product(rs, repeat=ln):
                i += 1
                if i % n != shard:
                    continue
                seq = list(seq)
                want = natural_groups(bib, seq, opt)
                k.states += 1
                d = dict(bible=bib.name, list=bib.s(seq), mode=mode)
                for sizes in set_partitions_seq(ln) if ln < 4 else [(ln,), (1,) * ln, (2,) + (1,) * (ln - 2), (ln - 1, 1)]:
                    l = BibleRangeList()
                    for g in nest(seq, sizes):
                        l.append_group([objs[r] for r in g])
                    k.case = (d, sizes)
                    r = call(l.regroup, **kw)
                    k.transitions += 1
                    if r[0] != "ok":
                        k.fail("regroup failed", got=r[1], sizes=sizes, **d)
                        continue
                    got = bib.tn(l)
                    if got != want or len(l) != ln or bib.tl(reversed(l)) != seq[::-1] or len(l.groups) != len(want):
                        k.fail("regroup", got=bib.s(got), want=bib.s(want), sizes=sizes, **d)
                    k.traces += 1
                l.regroup(**kw)
                k.transitions += 1
                if bib.tn(l) != want:
                    k.fail("regroup twice", got=bib.s(bib.tn(l)), want=bib.s(want), **d)
                if seq and ("M" in opt or all(r[0][0] == r[1][0] for r in seq)):
                    text = l.str(preserve_groups=False, force_start_verses=True, **kw)
                    w = interpret(bib, text, opt)
                    k.transitions += 1
                    if w != ("ok", want):
                        k.fail("groups differ from the reading of the conventional string", text=text, got=bib.s(want),
                               want=bib.s(w[1]) if w[0] == "ok" else str(w), **d)
                    if real:
                        x = call(BibleRangeList, text, **kw)
                        k.transitions += 1
                        if x[0] != "ok" or bib.tn(x[1]) != bib.tn(l) or not (x[1] == l):
                            k.fail("the conventional string reads back differently", text=text, got=x[1], **d)
                    # further edits keep working
                l.append(objs[rs[0]], new_group=True)
                l.prepend(objs[rs[0]])
                w2 = [list(g) for g in want] + [[rs[0]]]
                w2[0].insert(0, rs[0])
                k.transitions += 1
                if bib.tn(l) != w2 or bib.tl(reversed(l)) != [r for g in w2 for r in g][::-1]:
                    k.fail("editing after regroup", got=bib.s(bib.tn(l)), want=bib.s(w2), **d)
    k.sample({"bible": bib.name, "list": bib.s(seq), "groups": bib.s(want), "mode": str(mode)})


def histories(k, bib, opts, depth, shard, n):
    """Regrouping after every history of edits (regroupings included)."""
    import hist

    def warm(l):
        [list(g) for g in l.groups]

    def probe(k, l, groups, opt, h):
        flat = [r for g in groups for r in g]
        w = natural_groups(bib, flat, opt)
        k.eq(bib.tn(l), groups, "groups after edits", history=h, opt=opt)
        for i in range(2):
            l.regroup()
            k.eq((bib.tn(l), len(l.groups), bib.tl(reversed(l))), (w, len(w), flat[::-1]), "regroup after edits", history=h, opt=opt)
    hist.explore(k, bib, opts, depth, warm, probe, None, shard, n)


def long_lists(k, opt):
    """Long lists of the real Bible: all the chapters, verses and books listed in c13, regrouped."""
    import c13
    bib = REAL
    bib.install()
    bibleref.flags = FLAGS[opt]
    B = lambda n: bib.bidx[BibleBook[n]]
    ps = B("Psa")
    ch = [(bib.first(ps, c, opt), bib.last(ps, c)) for c in range(1, 151)]
    vs = [((ps, 119, v), (ps, 119, v)) for v in range(1, 177)]
    bk = [(bib.first(b, None, opt), bib.last(b)) for b in range(bib.n)]
    mixed = [x for c in range(1, 60) for x in (((ps, c, 1), (ps, c, 1)), ((ps, c, 2), (ps, c, 3)), ch[c])]
    seqs = {"chapters": ch, "verses": vs, "verses, descending": vs[::-1], "books": bk, "last verses": [(r[1], r[1]) for r in bk], "mixed": mixed,
            "verse pairs": [(a[0], b[1]) for a, b in zip(vs, vs[1:])], "verses then chapters": vs[:50] + ch[:50] + vs[:50],
            "verses of one-chapter books": [((B(b), 1, v), (B(b), 1, v)) for b in ("Obad", "Jude") for v in range(1, 21)],
            "chapter crossings": [(a[1], b[0]) for a, b in zip(ch, ch[1:])]}
    for name, seq in seqs.items():
        want = natural_groups(bib, seq, opt)
        for size in (1, 2, 5, len(seq)):
            k.case = (name, size)
            k.states += 1
            l = bib.L([seq[i:i + size] for i in range(0, len(seq), size)])
            for i in range(2):
                l.regroup()
                k.eq((bib.tn(l), len(l.groups)), (want, len(want)), "regroup of a long list", list=name, size=size, opt=opt)
            text = l.str(preserve_groups=False, force_start_verses=True)
            k.eq(interpret(bib, text, opt), ("ok", want), "groups differ from the reading of the conventional string", list=name, size=size, opt=opt)
            k.traces += 1


def longer(k, sizes, pair_sizes, modes, shard, n):
    """Lists of the real Bible with special elements at every position, in several groupings."""
    REAL.install()
    for mode in modes:
        kw = set_mode(mode); opt = mode[0]
        objs = {}
        for i, seq in enumerate(placed(opt, sizes, pair_sizes)):
            if i % n != shard:
                continue
            want = natural_groups(REAL, seq, opt)
            ln = len(seq)
            k.states += 1
            k.case = (seq, mode)
            for r in seq:
                if r not in objs:
                    objs[r] = REAL.R(r)
            for gs in ((ln,), (1,) * ln, (3,) * (ln // 3) + ((ln % 3,) if ln % 3 else ()), (ln - 1, 1)):
                l = BibleRangeList()
                for g in nest(seq, gs):
                    l.append_group([objs[r] for r in g])
                l.regroup(**kw)
                k.eq((REAL.tn(l), len(l.groups), REAL.tl(reversed(l))), (want, len(want), seq[::-1]), "regroup of a longer list", list=REAL.s(seq), sizes=gs, mode=mode)
                k.traces += 1
            if "M" in opt or all(r[0][0] == r[1][0] for r in seq):
                text = l.str(preserve_groups=False, force_start_verses=True, **kw)
                k.eq(interpret(REAL, text, opt), ("ok", want), "groups differ from the reading of the conventional string", list=REAL.s(seq), mode=mode)


def sources(k, bib, opt):
    """Operations documented to regroup: split, chap_ranges (default, True) and not (False)."""
    bib.install()
    bibleref.flags = FLAGS[opt]
    for t in bib.ranges(opt):
        r = bib.R(t)
        k.states += 1
        for kw in (dict(by_chap=True), dict(by_book=True), dict(num_verses=2), dict(by_chap=True, num_verses=1), dict(by_book=True, num_verses=2)):
            got = r.split(**kw)
            flat = bib.tl(got)
            k.eq(bib.tn(got), natural_groups(bib, flat, opt), "split regroups", range=bib.s(t), args=str(kw), opt=opt)
            same = r.split(regroup=False, **kw)
            k.eq(bib.tl(same), flat, "split without regrouping has the same pieces", range=bib.s(t), args=str(kw), opt=opt)
            k.eq(len(same.groups), 1, "split without regrouping has one group", range=bib.s(t), args=str(kw), opt=opt)
        k.traces += 1
    for e in bib.enum:
        got = e.chap_ranges()
        k.eq(bib.tn(got), natural_groups(bib, bib.tl(got), opt), "chap_ranges regroups", book=e.name, opt=opt)
        k.eq(len(e.chap_ranges(regroup=False).groups), 1, "chap_ranges without regrouping", book=e.name, opt=opt)


def jobs(tier):
    four = [("", "global"), ("Z", "arg"), ("M", "arg"), ("MZ", "global")]
    out = shards("A2", explore, (A, None, 0, 2, four, False), 16)
    out += shards("D2", explore, (D, None, 1, 2, [("", "arg"), ("MZ", "arg")], False), 8)
    out += shards("C3", explore, (C, None, 3, 3, four, False), 8)
    out += shards("W2", explore, (W, None, 2, 2, four, False), 8)
    out += shards("A3", explore, (A, reps, 3, 3, [("", "arg"), ("MZ", "global")], False), 16)
    out += shards("A2-real", explore, (A, reps, 1, 2, [("MZ", "arg"), ("", "global")], True), 8)
    out += [(f"sources-{b.name}-{o}", sources, (b, o)) for b in (A, D) for o in OPTS]
    from c13 import few2, few3
    out += shards("A5", explore, (A, few3, 4, 7, [("", "global"), ("MZ", "arg")], False), 16)
    out += shards("A8", explore, (A, few2, 8, 9, [("", "arg")], False), 8)
    out += shards("histories", histories, (E, ["", "M"], 2), 8)
    out += shards("histories-A", histories, (A, ["MZ"], 2), 8)
    out += [(f"long-{o}", long_lists, (o,)) for o in OPTS]
    out += shards("longer", longer, ((6, 9, 17, 40), (5, 8), [("", "arg"), ("MZ", "global")]), 16)
    out += [("revisit", revisit, (explore, None, 0, 2, four, False, 0, 1)), ("revisit-real", revisit, (explore, None, 1, 1, four, True, 0, 1))]
    import huge
    out.append(("huge", huge.regroup, ()))
    if tier == "thorough":
        out += shards("longer-all", longer, ((6, 9, 17, 40, 80), (5, 8, 13), MODES), 64)
        out += shards("histories-3", histories, (E, ["", "M"], 3), 64)
        out += shards("A2-all", explore, (A, None, 1, 2, MODES, False), 32)
        out += shards("C3-all", explore, (C, None, 3, 3, MODES, False), 32)
        out += shards("B3-all", explore, (B, None, 3, 3, MODES, False), 32)
        out += shards("E3-all", explore, (E, None, 3, 3, MODES, False), 32)
        out += shards("A3-all", explore, (A, reps, 3, 3, MODES, False), 32)
        out += shards("A3-full", explore, (A, None, 3, 3, [("", "global"), ("MZ", "arg")], False), 128)
        out += shards("A4", explore, (A, reps, 4, 4, [("MZ", "global")], False), 64)
    return out
