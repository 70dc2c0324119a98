"""C12: verses and ranges -> string -> same verse or range."""
from interp import *

import tables
P = tables.P
BOUNDS = {"quick": "every real verse x 8 formats by the reference interpreter, both ends of every chapter (default format) and of every book (8 formats) by the "
                   "real parser; every range of small Bibles A, P and D x 16 formats x 4 modes by the interpreter and by the real parser for A and P; "
                   "ranges between chapter edges (first two, last two verses) of 12 real books; every pair of chapters of 4 books and every pair of books (3 formats)" '; every selection of verse parts; alternating data sets; 10 other tables of book names',
          "thorough": "every real verse by the real parser; every pair of chapter edges of every real book; all 8 modes; D and E by the real parser"}
ASSUMPTIONS = ["multi-book ranges are only read back while multi-book is in effect, verse-0 references only while verse-0 is in effect",
               "the interpreter agrees with the parser (decided by C15)"]
VF = [dict(abbrev=a, alt_sep=s, nospace=n) for a in (False, True) for s in (False, True) for n in (False, True)]
RF = [dict(f, force_start_verses=x) for f in VF for x in (False, True)]


def judge(k, bib, obj, t, text, mode, kw, fmt, real):
    """t: model verse or range."""
    d = dict(bible=bib.name, ref=bib.s(t), text=text, mode=mode, fmt=str(fmt))
    rng = (t, t) if isinstance(t[0], int) else t
    k.transitions += 1
    if type(text) is not str:
        k.fail("not a string", got=text, **d)
        return
    if fmt.get("nospace") and (re.search(r"\s", text)):
        k.fail("the no-space form has spaces", **d)
    w = interpret(bib, text, mode[0])
    if w != ("ok", [[rng]]):
        k.fail("the string means something else", got=str(w[1:]), **d)
        return
    if real:
        cls = BibleVerse if rng is not t else BibleRange
        r = call(cls, text, **kw)
        k.traces += 1
        k.transitions += 1
        if r[0] != "ok" or r[1] != obj or (bib.tv(r[1]) if cls is BibleVerse else bib.tr(r[1])) != t:
            k.fail("parsing the string gives something else", got=r[1], **d)
        if cls is BibleVerse and fmt == VF[0]:
            r = call(BibleRange, text, **kw)
            if r[0] != "ok" or bib.tr(r[1]) != rng:
                k.fail("parsing the string as a range gives something else", got=r[1], **d)


def fmt_kw(fmt):
    return {a: b for a, b in fmt.items() if b}


def verses(k, bib, modes, fmts, real, shard, n):
    bib.install()
    bd = bible_data()
    for mode in modes:
        kw = set_mode(mode)
        for i, t in enumerate(bib.uni(mode[0])):
            if i % n != shard:
                continue
            k.states += 1
            v = bib.V(t)
            k.case = (bib.name, t, mode)
            edge = t[2] in (0, 1) or t == bib.last(t[0], t[1])
            book_edge = t in (bib.first(t[0], None, mode[0]), bib.last(t[0]))
            for fmt in fmts:
                do = real == "all" or (real == "edges" and ((edge and fmt == VF[0] and mode == modes[0]) or (book_edge and mode == modes[-1])))
                judge(k, bib, v, t, v.str(**fmt_kw(fmt)), mode, kw, fmt, do)
            if v.str() != str(v):
                k.fail("str() differs from .str()", ref=bib.s(t), got=str(v))
    k.sample({"bible": bib.name, "verse": bib.s(t), "text": v.str()})


def parts(k, bib):
    """Every selection of parts of every verse: exactly the selected parts are shown (a single-chapter book's chapter never is)."""
    from bibleref.ref import BibleVersePart as VP
    bib.install()
    one = {"B": VP.BOOK, "C": VP.CHAP, "V": VP.VERSE}
    for mode in MODES:
        set_mode(mode)
        for t in bib.uni("Z"):
            v = bib.V(t)
            k.states += 1
            for sel in ("", "B", "C", "V", "BC", "BV", "CV", "BCV"):
                vp = VP.NONE
                for x in sel:
                    vp |= one[x]
                for fmt in VF:
                    nums = [str(t[1])] if "C" in sel and bib.nch(t[0]) > 1 else []
                    nums += [str(t[2])] if "V" in sel else []
                    s = bible_data().verse_sep_alt if fmt["alt_sep"] else bible_data().verse_sep_std
                    book = (v.book.abbrev if fmt["abbrev"] else v.book.title) if "B" in sel else ""
                    want = " ".join(x for x in (book, s.join(nums)) if x)
                    if fmt["nospace"]:
                        want = want.replace(" ", "")
                    k.eq(v.str(verse_parts=vp, **fmt_kw(fmt)), want, "parts of a verse", verse=bib.s(t), parts=sel, fmt=str(fmt), mode=mode)
            k.traces += 1


def ranges(k, bib, modes, real, gen, shard, n):
    bib.install()
    for mode in modes:
        kw = set_mode(mode)
        rs = bib.ranges(mode[0], multi="M" in mode[0]) if gen is None else gen(bib, mode[0])
        for i, t in enumerate(rs):
            if i % n != shard:
                continue
            k.states += 1
            r = bib.R(t)
            k.case = (bib.name, t, mode)
            for fmt in RF:
                judge(k, bib, r, t, r.str(**fmt_kw(fmt), **kw), mode, kw, fmt, real)
            if not kw and str(r) != r.str():
                k.fail("str() differs from .str()", ref=bib.s(t), got=str(r))
    k.sample({"bible": bib.name, "range": bib.s(t), "text": r.str(**kw)})


def few_formats(k, bib, modes, gen, shard, n):
    global RF
    RF = [RF[0], RF[1], RF[14]]
    ranges(k, bib, modes, False, gen, shard, n)


def named(k, name, bib, modes, shard, n):
    """References written and read with other book names: the default text with the names replaced, and back."""
    d = bible_data()
    whole = dict(d.name_data)
    t = tables.table(name)
    bib.install()
    few = {b: x for b, x in whole.items() if b in bib.bidx}
    for mode in modes:
        kw = set_mode(mode)
        rs = bib.ranges(mode[0], multi="M" in mode[0])
        some = [(x, bib.V(x)) for x in bib.uni(mode[0])] + [(x, bib.R(x)) for x in rs]
        some = [x for i, x in enumerate(some) if i % n == shard]
        fmts = RF if len(some) < 40 else [RF[0], RF[3], RF[8], RF[10], RF[15]]
        ref = {}
        for x, o in some:
            for i, f in enumerate(fmts):
                ref[x, i] = o.str(**({} if isinstance(o, BibleVerse) else kw), **{a: b for a, b in f.items() if b and not (a == "force_start_verses" and isinstance(o, BibleVerse))})
        d.name_data = t
        for x, o in some:
            k.states += 1
            cls = type(o)
            for i, f in enumerate(fmts):
                text = o.str(**({} if cls is BibleVerse else kw), **{a: b for a, b in f.items() if b and not (a == "force_start_verses" and cls is BibleVerse)})
                k.case = (name, x, mode, f)
                k.eq(text, tables.retitle(ref[x, i], name, f["abbrev"], f["nospace"], few), "a reference written with other book names", names=name, ref=bib.s(x))
                r = call(cls, text, **kw)
                k.transitions += 2
                k.traces += 1
                if r[0] != "ok" or r[1] != o or (bib.tv if cls is BibleVerse else bib.tr)(r[1]) != x:
                    k.fail("parsing the string gives something else", got=r[1], names=name, text=text, ref=bib.s(x), mode=mode)
        d.name_data = whole
    k.sample({"names": name, "text": text})


BOOKS = ["Gen", "Ruth", "ISam", "Psa", "Song", "Obad", "Jonah", "Phlm", "IIJn", "IIIJn", "Jude", "Rev"]


def edges_of(bib, b, opt):
    out = []
    for c in range(1, bib.nch(b) + 1):
        lo, hi = bib.minv(b, c, "Z" in opt), bib.maxv[b][c - 1]
        out += [(b, c, v) for v in sorted({lo, lo + 1, hi - 1, hi}) if lo <= v <= hi]
    return out


def edge_ranges(bib, opt):
    """Within and between the edges of the first two and last two chapters of 12 real books, and across books."""
    out = []
    alls = []
    for name in BOOKS:
        b = bib.bidx[BibleBook[name]]
        es = [t for t in edges_of(bib, b, opt) if t[1] <= 2 or t[1] > bib.nch(b) - 2 or (name == "Psa" and t[1] in (3, 89, 90))]
        out += [(a, c) for a in es for c in es if a <= c]
        alls.append((es[0], es[1], es[-2], es[-1]))
    if "M" in opt:
        for i in range(len(alls)):
            for j in (i + 1, len(alls) - 1):
                if i < j < len(alls):
                    out += [(a, c) for a in alls[i] for c in alls[j]]
    return out


def all_edges(bib, opt):
    out = []
    for b in range(bib.n):
        for c in range(1, bib.nch(b) + 1):
            es = [t for t in edges_of(bib, b, opt) if t[1] in (c, c + 1, bib.nch(b))]
            out += [(a, d) for a in es if a[1] == c for d in es if a <= d]
    return out


def chapter_pairs(names):
    def gen(bib, opt):
        """Every pair of chapters of the books: inner verse to inner verse, whole to whole, whole to inner and inner to whole."""
        out = []
        for nm in names:
            b = bib.bidx[BibleBook[nm]]
            for c in range(1, bib.nch(b) + 1):
                for d in range(c, bib.nch(b) + 1):
                    s, s2 = bib.first(b, c, opt), (b, c, bib.maxv[b][c - 1])
                    e, e2 = bib.last(b, d), (b, d, 1)
                    out += [(s, e)] + [x for x in ((s2, e), (s, e2), (s2, e2)) if x[0] <= x[1]]
        return out
    return gen


def book_pairs(bib, opt):
    """Every pair of books: whole to whole, last verse to first verse, inner chapter to inner chapter."""
    out = []
    for a in range(bib.n):
        for b in range(a + 1, bib.n):
            out += [(bib.first(a, None, opt), bib.last(b)), (bib.last(a), bib.first(b, None, opt)), (bib.first(a, bib.nch(a), opt), bib.last(b, 1)),
                    (bib.last(a), bib.last(b)), (bib.first(a, None, opt), (b, 1, 1))]
    return out


def jobs(tier):
    four = [("", "global"), ("Z", "arg"), ("M", "arg"), ("MZ", "global")]
    out = shards("real-verses", verses, (REAL, [("", "arg"), ("Z", "global")], VF, "edges"), 16)
    out += shards("ranges-A", ranges, (A, four, True, None), 16)
    out += shards("ranges-P", ranges, (P, four, True, None), 16)
    out += shards("ranges-A-i", ranges, (A, MODES, False, None), 4)
    out += shards("ranges-D-i", ranges, (D, MODES, False, None), 4)
    out += shards("real-edges-i", ranges, (REAL, four, False, edge_ranges), 8)
    out += shards("ranges-W", ranges, (W, four, True, None), 16)
    out += [("parts-" + b.name, parts, (b,)) for b in (A, P)]
    out += shards("verses-A", verses, (A, MODES, VF, "all"), 2)
    out += shards("chapter-pairs-i", few_formats, (REAL, [("", "global")], chapter_pairs(("Psa",))), 16)
    out += shards("chapter-pairs-Z-i", few_formats, (REAL, [("Z", "arg")], chapter_pairs(("Isa", "Gen", "Hab"))), 8)
    out += shards("book-pairs-i", few_formats, (REAL, [("M", "global"), ("MZ", "arg")], book_pairs), 8)
    out += [("revisit", revisit, (ranges, four, True, None, 0, 1)), ("revisit-verses", revisit, (verses, MODES, VF, "all", 0, 1))]
    for t in tables.WRITABLE:
        out += shards("names A: " + t, named, (t, A, [("", "global"), ("Z", "arg"), ("MZ", "global")]), 2)
        out += shards("names P: " + t, named, (t, P, [("Z", "global"), ("M", "arg")]), 2)
    if tier == "thorough":
        out += shards("chapter-pairs-all-i", ranges, (REAL, [("", "arg"), ("Z", "global")], False, chapter_pairs(REAL.names)), 64)
        out += shards("book-pairs", ranges, (REAL, [("M", "arg")], True, book_pairs), 64)
        out += shards("real-verses-real", verses, (REAL, [("", "global")], VF[:1], "all"), 32)
        out += shards("real-verses-fmt", verses, (REAL, [("Z", "arg")], VF[7:], "all"), 32)
        for b in (A, P, D, E):
            out += shards(f"ranges-{b.name}-real", ranges, (b, MODES, True, None), 32)
        out += shards("real-edges", ranges, (REAL, four, True, edge_ranges), 64)
        out += shards("real-all-edges-i", ranges, (REAL, four, False, all_edges), 32)
    return out
