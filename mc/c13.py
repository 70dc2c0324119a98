"""C13: range lists -> string -> same list, groups included."""
from interp import *

BOUNDS = {"quick": "reference interpreter: every list of <=2 ranges of Bible A in every grouping x 8 formats x 4 options, of 3 of 26 boundary ranges of A (2 options), "
                   "of 4 of 8 ranges, of 3 ranges of E; real parser: every list of <=2 of 26 boundary ranges, every grouping, 8 formats, <=3 of 9" '; longer placed lists; alternating data sets; lists of 1100 ranges; 10 other tables of book names',
          "thorough": "interpreter: every list of 3 ranges of A, of 4 of 14 ranges; real parser: <=2 ranges of A, 3 of 14, all 32 formats"}
ASSUMPTIONS = ["multi-book ranges are only read back while multi-book is in effect, verse-0 references only while verse-0 is in effect",
               "the interpreter agrees with the parser (decided by C15)"]
FMTS = [dict(abbrev=a, alt_sep=s, nospace=n, preserve_groups=p, force_start_verses=f) for p in (True, False) for f in (False, True)
        for a in (False, True) for s in (False, True) for n in (False, True)]
F8 = [f for f in FMTS if f["abbrev"] == f["alt_sep"] == f["nospace"]]
F4 = [f for f in F8 if not f["abbrev"]]


def fmt_kw(f):
    return {a: b for a, b in f.items() if b != (a == "preserve_groups")}


def judge(k, bib, groups, l, mode, kw, fmt, real):
    text = l.str(**fmt_kw(fmt), **kw)
    k.transitions += 1
    if fmt["nospace"] and re.search(r"\s", text):
        k.fail("the no-space form has spaces", text=text, list=bib.s(groups), mode=mode, fmt=str(fmt))
    flat = [r for g in groups for r in g]
    if not flat:
        if text != "":
            k.fail("string of an empty list", text=text, fmt=str(fmt))
        return
    w = interpret(bib, text, mode[0])
    if w[0] != "ok" or [r for g in w[1] for r in g] != flat:
        k.fail("the string names other ranges", text=text, list=bib.s(groups), got=bib.s(w[1]) if w[0] == "ok" else str(w), mode=mode,
               fmt=str(fmt), bible=bib.name)
    elif fmt["preserve_groups"] and w[1] != groups:
        k.fail("the string has other groups", text=text, list=bib.s(groups), got=bib.s(w[1]), mode=mode, fmt=str(fmt), bible=bib.name)
    if real:
        k.traces += 1
        k.transitions += 1
        r = call(BibleRangeList, text, **kw)
        if r[0] != "ok":
            k.fail("the string is refused", text=text, list=bib.s(groups), mode=mode, fmt=str(fmt), got=r[1], bible=bib.name)
        elif bib.tl(r[1]) != flat or (fmt["preserve_groups"] and (bib.tn(r[1]) != groups or not (r[1] == l))):
            k.fail("reading the string back gives another list", text=text, list=bib.s(groups), got=bib.s(bib.tn(r[1])), mode=mode,
                   fmt=str(fmt), bible=bib.name)


def explore(k, bib, gen, lo, hi, modes, fmts, real, shard, n):
    bib.install()
    for mode in modes:
        kw = set_mode(mode); opt = mode[0]
        rs = bib.ranges(opt, multi="M" in opt) if gen is None else gen(bib, opt)
        objs = {r: bib.R(r) for r in rs}
        i = 0
        for ln in range(lo, hi + 1):
            for seq in itertools.product(rs, repeat=ln):
                i += 1
                if i % n != shard:
                    continue
                for sizes in set_partitions_seq(ln):
                    g = nest(list(seq), sizes)
                    if bib.shared is not None:
                        l = bib.SL(g)
                    else:
                        l = BibleRangeList()
                        for gr in g:
                            l.append_group([objs[r] for r in gr])
                    k.states += 1
                    k.case = (bib.name, g, mode)
                    for fmt in fmts:
                        judge(k, bib, g, l, mode, kw, fmt, real)
                    if not kw and str(l) != l.str():
                        k.fail("str() differs from .str()", list=bib.s(g))
    k.sample({"bible": bib.name, "list": bib.s(g), "text": l.str(**kw), "mode": str(mode)})


def histories(k, bib, opts, depth, fmts, shard, n):
    """The string of a list after every history of edits, the list being printed before and between the edits."""
    import hist

    def warm(l):
        for f in fmts:
            l.str(**fmt_kw(f))
        str(l)

    def probe(k, l, groups, opt, h):
        k.case = h
        for f in fmts:
            judge(k, bib, groups, l, (opt, "global"), {}, f, False)
        k.eq(str(l), l.str(), "str() differs from .str() after edits", history=h)
        k.eq(bib.tn(l), groups, "printing changed the list", history=h)
    hist.explore(k, bib, opts, depth, warm, probe, None, shard, n)


def long_lists(k, opt):
    """Long lists over the real Bible: all chapters of a book, all verses of a chapter, all books; one group, one each, pairs."""
    bib = REAL
    bib.install()
    bibleref.flags = FLAGS[opt]
    mode = (opt, "global")
    B = lambda n: bib.bidx[BibleBook[n]]
    ch = lambda b: [(bib.first(b, c, opt), bib.last(b, c)) for c in range(1, bib.nch(b) + 1)]
    vs = lambda b, c: [((b, c, v), (b, c, v)) for v in range(1, bib.maxv[b][c - 1] + 1)]
    bk = [(bib.first(b, None, opt), bib.last(b)) for b in range(bib.n)]
    seqs = {"Psa chapters": ch(B("Psa")), "Psa 119 verses": vs(B("Psa"), 119), "Gen 1 verses": vs(B("Gen"), 1), "Jude verses": vs(B("Jude"), 1),
            "books": bk, "books, descending": bk[::-1], "chapters of small books": [r for b in ("Ruth", "Obad", "Jonah", "Phlm", "Titus") for r in ch(B(b))],
            "last verses of all books": [(r[1], r[1]) for r in bk], "every tenth verse of Psa 119 and Psa 118": [x for p in zip(vs(B("Psa"), 119)[::10], vs(B("Psa"), 118)[::2]) for x in p],
            "chapter pairs": [(a[0], b[1]) for a, b in zip(ch(B("Isa")), ch(B("Isa"))[1:])],
            "verse pairs": [((B("Isa"), 40, v), (B("Isa"), 40, v + 1)) for v in range(1, 31)],
            "chapters and verses": [x for c in range(1, 40) for x in (ch(B("Psa"))[c], ((B("Psa"), c, 1), (B("Psa"), c, 1)))]}
    if "M" in opt:
        seqs["book pairs"] = [(a[0], b[1]) for a, b in zip(bk, bk[1:])]
        seqs["book crossings"] = [(a[1], b[0]) for a, b in zip(bk, bk[1:])]
    for name, seq in seqs.items():
        n = len(seq)
        for sizes in {(n,), (1,) * n, (2,) * (n // 2) + (1,) * (n % 2), (n // 2, n - n // 2), (7,) * (n // 7) + ((n % 7,) if n % 7 else ())}:
            g = nest(seq, sizes)
            l = bib.L(g)
            k.states += 1
            for f in F8:
                k.case = (name, sizes, f)
                judge(k, bib, g, l, mode, {}, f, f in F4[:1] and n < 40)
    k.sample({"lists": list(seqs)})


def longer(k, sizes, pair_sizes, modes, fmts, shard, n):
    """Lists of the real Bible with special elements at every position; one group, one each, threes, and split at every position."""
    REAL.install()
    for mode in modes:
        kw = set_mode(mode); opt = mode[0]
        for i, seq in enumerate(placed(opt, sizes, pair_sizes)):
            if i % n != shard or "M" not in opt and any(r[0][0] != r[1][0] for r in seq):
                continue
            ln = len(seq)
            cuts = [(p, ln - p) for p in range(1, ln)] if ln < 7 else [(ln // 2, ln - ln // 2)]
            for gs in [(ln,), (1,) * ln, (3,) * (ln // 3) + ((ln % 3,) if ln % 3 else ())] + cuts:
                g = nest(seq, gs)
                l = REAL.L(g)
                k.states += 1
                k.case = (g, mode)
                for f in fmts:
                    judge(k, REAL, g, l, mode, kw, f, False)


def named(k, name, modes, shard, n):
    """Lists written and read with other book names: the default text with the names replaced, and back."""
    import tables
    d = bible_data()
    whole = dict(d.name_data)
    few = {b: x for b, x in whole.items() if b in A.bidx}
    A.install()
    for mode in modes:
        kw = set_mode(mode); opt = mode[0]
        rs = reps8(A, opt)
        cases = [nest(list(seq), sizes) for ln in (2, 3) for seq in itertools.product(rs if ln == 2 else rs[:5], repeat=ln) for sizes in set_partitions_seq(ln)]
        cases = [(g, A.L(g)) for i, g in enumerate(cases) if i % n == shard]
        fmts = [F8[0], F8[3], FMTS[7], FMTS[13]]
        ref = [[l.str(**fmt_kw(f), **kw) for f in fmts] for g, l in cases]
        d.name_data = tables.table(name)
        for (g, l), texts in zip(cases, ref):
            k.states += 1
            for f, t0 in zip(fmts, texts):
                k.case = (name, g, mode, f)
                k.transitions += 2
                k.traces += 1
                text = l.str(**fmt_kw(f), **kw)
                k.eq(text, tables.retitle(t0, name, f["abbrev"], f["nospace"], few), "a list written with other book names", names=name, list=A.s(g))
                r = call(BibleRangeList, text, **kw)
                if r[0] != "ok" or A.tn(r[1]) != g or not r[1] == l:
                    k.fail("reading the string back gives another list", text=text, list=A.s(g), got=r[1], names=name, mode=mode)
        d.name_data = whole
    k.sample({"names": name, "text": text})


def pick(bib, opt, rs):
    out = []
    for s, e in rs:
        s = bib.first(s[0], s[1], opt) if s[2] == "f" else s
        if bib.exists(s, opt) and bib.exists(e, opt) and ("M" in opt or s[0] == e[0]) and (s, e) not in out:
            out.append((s, e))
    return out


# Bible A: 0 Gen [2,3]; 1 Obad [2]; 2 Psa [1,2,2] (verse 0 in 1 and 3); 3 Jude [1]
def reps(bib, opt):
    f = "f"
    return pick(bib, opt, [((0, 1, f), (0, 2, 3)), ((0, 1, f), (0, 1, 2)), ((0, 2, f), (0, 2, 3)), ((0, 1, 1), (0, 1, 1)), ((0, 1, 2), (0, 1, 2)),
                           ((0, 2, 1), (0, 2, 2)), ((0, 2, 2), (0, 2, 3)), ((0, 1, f), (0, 2, 1)), ((0, 1, 2), (0, 2, 3)), ((0, 1, 2), (0, 2, 1)),
                           ((1, 1, f), (1, 1, 2)), ((1, 1, 1), (1, 1, 1)), ((1, 1, 2), (1, 1, 2)), ((2, 1, f), (2, 3, 2)), ((2, 1, f), (2, 1, 1)),
                           ((2, 3, f), (2, 3, 2)), ((2, 3, 0), (2, 3, 0)), ((2, 3, 1), (2, 3, 2)), ((2, 2, f), (2, 3, 2)), ((2, 1, 1), (2, 2, 1)),
                           ((3, 1, 1), (3, 1, 1)), ((0, 1, f), (1, 1, 2)), ((0, 2, f), (1, 1, 1)), ((0, 2, 3), (2, 1, 1)), ((1, 1, 2), (2, 3, 1)),
                           ((1, 1, f), (3, 1, 1)), ((0, 2, 2), (2, 3, 2))])


def reps8(bib, opt):
    r = reps(bib, opt)
    keep = [((0, 1, 1), (0, 1, 2)), ((0, 2, 1), (0, 2, 3)), ((0, 1, 2), (0, 1, 2)), ((0, 1, 1), (0, 2, 1)), ((0, 1, 2), (0, 2, 3)), ((1, 1, 1), (1, 1, 2)),
            ((1, 1, 2), (1, 1, 2)), ((0, 1, 1), (0, 2, 3)), ((0, 2, 1), (1, 1, 1))]
    return [x for x in r if x in keep]


def reps14(bib, opt):
    return [x for i, x in enumerate(reps(bib, opt)) if i % 2 == 0 or x in reps8(bib, opt)][:16]


def few3(bib, opt):
    return [((0, 1, 1), (0, 1, 2)), ((0, 2, 2), (0, 2, 2)), ((1, 1, 1), (1, 1, 1))]


def few2(bib, opt):
    return [((0, 2, 1), (0, 2, 2)), ((0, 2, 3), (0, 2, 3))]


def jobs(tier):
    four = [("", "global"), ("Z", "arg"), ("M", "arg"), ("MZ", "global")]
    two = [("", "arg"), ("MZ", "global")]
    out = shards("A2-i", explore, (A, None, 0, 2, four, F8, False), 24)
    out += shards("A3-i", explore, (A, reps, 3, 3, two, F4, False), 16)
    out += shards("E3-i", explore, (E, None, 3, 3, [("M", "global")], F4, False), 8)
    out += shards("A4-i", explore, (A, reps8, 4, 4, [("M", "global")], F4, False), 16)
    out += shards("A2-real", explore, (A, reps, 0, 2, [("MZ", "arg")], F4, True), 16)
    out += shards("A2-real-N", explore, (A, reps, 0, 2, [("", "global")], F4, True), 16)
    out += shards("W1-real", explore, (W, None, 1, 1, four, FMTS, True), 16)
    out += shards("W2-i", explore, (W, None, 2, 2, [("Z", "global"), ("MZ", "arg")], F4, False), 8)
    out += shards("A3-real", explore, (A, reps8, 3, 3, [("M", "arg")], F4[:2], True), 16)
    out += shards("A6-i", explore, (A, few3, 5, 6, [("M", "global")], F4[1:3], False), 16)
    out += shards("A7-i", explore, (A, few2, 7, 8, [("", "arg")], F4[1:3], False), 8)
    out += shards("histories", histories, (E, ["M"], 2, F4), 16)
    out += shards("histories-A", histories, (A, ["", "Z"], 1, F8), 4)
    out += [(f"long-{o}", long_lists, (o,)) for o in OPTS]
    out += shards("longer", longer, ((6, 9, 17, 40), (5, 8), [("MZ", "arg")], F4[1:3]), 16)
    out += [("revisit", revisit, (explore, None, 0, 2, four, F4, False, 0, 1)), ("revisit-real", revisit, (explore, None, 1, 1, four, F4, True, 0, 1))]
    import huge, tables
    for t in tables.WRITABLE:
        out += shards("names: " + t, named, (t, [("", "arg"), ("MZ", "global")]), 4)
    out += [(f"huge-{s}", huge.text, (s,)) for s in huge.SIZES]
    if tier == "thorough":
        out += shards("longer-all", longer, ((6, 9, 17, 40), (5, 8), [("", "arg"), ("Z", "global"), ("M", "arg"), ("MZ", "global")], F8), 64)
        out += shards("A7-3-i", explore, (A, few3, 7, 7, [("M", "global"), ("", "arg")], F4, False), 64)
        out += shards("histories-3", histories, (E, ["", "M"], 3, F4[1:3]), 128)
        out += shards("A3-i2", explore, (A, reps, 3, 3, [("M", "arg"), ("Z", "global")], F4[:1] + F4[3:], False), 16)
        out += shards("A3-all-i", explore, (A, None, 3, 3, [("", "global"), ("MZ", "arg")], F4, False), 128)
        out += shards("A2-real-all", explore, (A, None, 0, 2, four, F4, True), 128)
        out += shards("A2-real-fmt", explore, (A, reps, 1, 2, four, FMTS, True), 64)
        out += shards("A3-real-14", explore, (A, reps14, 3, 3, [("MZ", "global")], F4, True), 64)
        out += shards("A4-14-i", explore, (A, reps14, 4, 4, [("MZ", "arg")], F4, False), 64)
        out += shards("A5-i", explore, (A, reps8, 5, 5, [("M", "arg")], F4, False), 64)
    return out
