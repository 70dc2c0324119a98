"""C01: verse validity and book facts, exhaustively over the real versification and small Bibles."""
from model import *

BOUNDS = {"quick": "all 66 books x chapters -max-1..max+2 x verses -2..max+2 plus far-out numbers, 8 option modes; 4 small Bibles" '; invalid chapters passed to the verse questions; books dropped from the data; the same questions while three data sets alternate in one process',
          "thorough": "as quick, books given as enum, title and abbreviation"}
ASSUMPTIONS = ["golden.json (frozen copy of the default data, 66 books/1189 chapters/31102 verses) is the intended versification"]
FAR = [-10**9, -100, 200, 10**9]


def expect_invalid(k, fn, what, **d):
    k.transitions += 1
    r = call(fn)
    if r[0] == "ok":
        k.fail(what + ": accepted", got=r[1], **d)
    elif not isinstance(r[2], InvalidReferenceError):
        k.fail(what + ": wrong error", got=r[2], **d)


def validity(k, bib, shard, n, tier):
    if bib is not REAL:
        bib.install()
    for b in range(bib.n):
        if b % n != shard:
            continue
        e = bib.enum[b]
        forms = [e] if tier == "quick" and b % 9 else [e, e.title, e.abbrev]
        for mode in MODES:
            kw = set_mode(mode); opt = mode[0]
            for c in list(range(-bib.nch(b) - 1, bib.nch(b) + 3)) + FAR:
                ok_c = 1 <= c <= bib.nch(b)
                hi = bib.maxv[b][c - 1] if ok_c else 2
                for v in list(range(-2, hi + 3)) + FAR:
                    k.states += 1
                    want = ok_c and bib.minv(b, c, "Z" in opt) <= v <= hi
                    for f in forms:
                        k.transitions += 1
                        k.case = ("BibleVerse", str(f), c, v, mode)
                        try:
                            x = BibleVerse(f, c, v, **kw)
                        except InvalidReferenceError:
                            if want:
                                k.fail("existing verse refused", book=bib.names[b], chap=c, verse=v, mode=mode)
                        except Exception as ex:
                            k.fail("wrong error for verse", book=bib.names[b], chap=c, verse=v, mode=mode, got=ex)
                        else:
                            if not want:
                                k.fail("non-existent verse accepted", book=bib.names[b], chap=c, verse=v, mode=mode)
                            elif (x.book, x.chap_num, x.verse_num) != (e, c, v):
                                k.fail("verse attributes differ", book=bib.names[b], chap=c, verse=v, got=x)
                k.traces += 1
    k.sample("BibleVerse(book, c, v) for all c, v around the bounds of each chapter in " + bib.name)


def facts(k, bib, shard, n):
    if bib is not REAL:
        bib.install()
    for b in range(bib.n):
        if b % n != shard:
            continue
        e, nch = bib.enum[b], bib.nch(b)
        nm = dict(book=bib.names[b])
        for mode in MODES:
            kw = set_mode(mode); opt = mode[0]
            k.states += 1
            k.case = (bib.name, bib.names[b], mode)
            nm["mode"] = mode
            k.eq(e.chap_count(), nch, "chap_count", **nm)
            k.eq(e.min_chap_num(), 1, "min_chap_num", **nm)
            k.eq(e.max_chap_num(), nch, "max_chap_num", **nm)
            k.eq(e.verse_count(**kw), sum(bib.maxv[b][c - 1] - bib.minv(b, c, "Z" in opt) + 1 for c in range(1, nch + 1)),
                 "verse_count", **nm)
            k.eq(bib.tv(e.first_verse(**kw)), bib.first(b, None, opt), "first_verse()", **nm)
            k.eq(bib.tv(e.last_verse()), bib.last(b), "last_verse()", **nm)
            k.eq(bib.tr(e.range(**kw)), (bib.first(b, None, opt), bib.last(b)), "range()", **nm)
            k.eq(e.next(), bib.enum[b + 1] if b + 1 < bib.n else None, "next()", **nm)
            k.eq(e.prev(), bib.enum[b - 1] if b else None, "prev()", **nm)
            k.eq(e.order, b, "order", **nm)
            chs = [(bib.first(b, c, opt), bib.last(b, c)) for c in range(1, nch + 1)]
            for rg in (True, False):
                for again in range(2):
                    lst = e.chap_ranges(regroup=rg, **kw)
                    k.eq(bib.tl(lst), chs, "chap_ranges()" + (" after editing an earlier result" if again else ""), **nm)
                    tamper(lst)
            for c in [-10**9, *range(-nch - 1, 1), nch + 1, nch + 2, 10**9]:
                expect_invalid(k, lambda: e.min_verse_num(c, **kw), "min_verse_num", chap=c, **nm)
                expect_invalid(k, lambda: e.max_verse_num(c), "max_verse_num", chap=c, **nm)
                expect_invalid(k, lambda: e.first_verse(c, **kw), "first_verse", chap=c, **nm)
                expect_invalid(k, lambda: e.last_verse(c), "last_verse", chap=c, **nm)
                expect_invalid(k, lambda: e.chap_range(c, **kw), "chap_range", chap=c, **nm)
            for c in range(1, nch + 1):
                nm["chap"] = c
                mn, mx = bib.minv(b, c, "Z" in opt), bib.maxv[b][c - 1]
                k.eq(e.min_verse_num(c, **kw), mn, "min_verse_num", **nm)
                k.eq(e.max_verse_num(c), mx, "max_verse_num", **nm)
                k.eq(bib.tv(e.first_verse(c, **kw)), (b, c, mn), "first_verse", **nm)
                k.eq(bib.tv(e.last_verse(c)), (b, c, mx), "last_verse", **nm)
                k.eq(bib.tr(e.chap_range(c, **kw)), ((b, c, mn), (b, c, mx)), "chap_range", **nm)
                vs = range(0 if c in bib.v0[b] else 1, mx + 1)
                if bib is REAL:
                    vs = sorted({vs[0], 1, min(2, mx), max(1, mx - 1), mx})
                for v in vs:
                    x = bib.V((b, c, v))
                    d = dict(verse=v, **nm)
                    k.states += 1
                    k.eq(x.min_chap_num(), 1, "verse.min_chap_num", **d)
                    k.eq(x.max_chap_num(), nch, "verse.max_chap_num", **d)
                    k.eq(x.min_verse_num(**kw), mn, "verse.min_verse_num()", **d)
                    k.eq(x.max_verse_num(), mx, "verse.max_verse_num()", **d)
                    k.eq(bib.tv(x.first_verse(**kw)), (b, c, mn), "verse.first_verse()", **d)
                    k.eq(bib.tv(x.last_verse()), (b, c, mx), "verse.last_verse()", **d)
                    k.eq(x.is_first_in_chap(**kw), v == mn, "verse.is_first_in_chap()", **d)
                    k.eq(x.is_last_in_chap(), v == mx, "verse.is_last_in_chap()", **d)
                    k.eq(x.is_first_in_book(**kw), (b, c, v) == bib.first(b, None, opt), "verse.is_first_in_book()", **d)
                    k.eq(x.is_last_in_book(), (b, c, v) == bib.last(b), "verse.is_last_in_book()", **d)
                    k.eq(bib.tr(x.chap_range(**kw)), ((b, c, mn), (b, c, mx)), "verse.chap_range()", **d)
                    k.eq(bib.tr(x.book_range(**kw)), (bib.first(b, None, opt), bib.last(b)), "verse.book_range()", **d)
                    for c2 in {1, nch, min(nch, c + 1)}:
                        k.eq(x.min_verse_num(c2, **kw), bib.minv(b, c2, "Z" in opt), "verse.min_verse_num(chap)", c2=c2, **d)
                        k.eq(x.max_verse_num(c2), bib.maxv[b][c2 - 1], "verse.max_verse_num(chap)", c2=c2, **d)
                        k.eq(bib.tv(x.first_verse(c2, **kw)), bib.first(b, c2, opt), "verse.first_verse(chap)", c2=c2, **d)
                        k.eq(bib.tv(x.last_verse(c2)), bib.last(b, c2), "verse.last_verse(chap)", c2=c2, **d)
                        k.eq(x.is_first_in_chap(c2, **kw), (b, c, v) == bib.first(b, c2, opt), "verse.is_first_in_chap(chap)", c2=c2, **d)
                        k.eq(x.is_last_in_chap(c2), (b, c, v) == bib.last(b, c2), "verse.is_last_in_chap(chap)", c2=c2, **d)
                    for c2 in (-10**9, -nch, -1, 0, nch + 1, 10**9):
                        for q in (x.first_verse, x.min_verse_num):
                            expect_invalid(k, lambda: q(c2, **kw), "verse." + q.__name__ + "(chap)", c2=c2, **d)
                        for q in (x.last_verse, x.max_verse_num):
                            expect_invalid(k, lambda: q(c2), "verse." + q.__name__ + "(chap)", c2=c2, **d)
                    for b2 in {b, (b + 1) % bib.n, 0}:
                        k.eq(x.is_first_in_book(bib.enum[b2], **kw), (b, c, v) == bib.first(b2, None, opt),
                             "verse.is_first_in_book(book)", b2=b2, **d)
                        k.eq(x.is_last_in_book(bib.enum[b2]), (b, c, v) == bib.last(b2), "verse.is_last_in_book(book)", b2=b2, **d)
                nm.pop("chap")
            k.traces += 1
    if shard == 0:
        for mode in MODES:
            kw = set_mode(mode)
            k.eq(bib.tr(BibleRange.whole_bible(**kw)), (bib.first(0, None, mode[0]), bib.last(bib.n - 1)), "whole_bible", mode=mode)
        k.eq([x.name for x in bible_data().book_order], bib.names, "book order")
        k.sample("facts of every book of " + bib.name)


def dropped(k):
    """Books that are in the data no more (and may be again): no chapters, no verses, no neighbours."""
    J = Bible("J", [("Jude", [2], {1})])
    for bib in (E, J, E2, J, A, J, E):
        bib.install()
        for mode in MODES:
            kw = set_mode(mode)
            for b in BibleBook:
                k.states += 1
                k.case = (bib.name, b.name, mode)
                if b in bib.bidx:
                    i = bib.bidx[b]
                    n, v = bib.nch(i), len([t for t in bib.uni(mode[0]) if t[0] == i])
                else:
                    n = v = 0
                    k.eq((b.next(), b.prev()), (None, None), "neighbours of a book not in the data", book=b.name, bible=bib.name)
                    for c in (0, 1, 2):
                        expect_invalid(k, lambda: BibleVerse(b, c, 1, **kw), "verse of a book not in the data", book=b.name, chap=c)
                k.eq((b.chap_count(), b.max_chap_num(), b.verse_count(**kw)), (n, n, v), "counts", book=b.name, bible=bib.name, mode=mode)
        k.traces += 1


NOT_NUMBERS = [None, "1", "", "a", 1.0, 1.5, 0.5, 2.0, float("nan"), float("inf"), 1j, [1], (1,), {1}, b"1", object(), BibleBook.Gen]


def not_numbers(k, bib):
    """A chapter or verse that is no whole number names no verse."""
    bib.install()
    for mode in MODES:
        kw = set_mode(mode)
        for e in bib.enum:
            for a in NOT_NUMBERS:
                for args in [(e, a, 1), (e, 1, a), (e, a, a), (e.title, a, 1), (e.title, 1, a)]:
                    k.states += 1
                    k.transitions += 1
                    k.case = (bib.name, mode, args)
                    r = call(BibleVerse, *args, **kw)
                    if r[0] == "ok":
                        k.fail("a verse was made from a part that is no number", args=args, got=r[1], mode=mode)
        for a in (None, 5, 1.0, [], object(), BibleVerse, b"Gen", (1, 1)):
            r = call(BibleVerse, a, 1, 1, **kw)
            k.transitions += 1
            if r[0] == "ok":
                k.fail("a verse was made from something that is no book", book=a, got=r[1], mode=mode)
        k.traces += 1


def defaults(k):
    """A freshly imported package has the default (Protestant, no options) configuration."""
    k.states += 1
    k.eq(bibleref.flags, BibleFlag.NONE, "default options")
    for a in ((), (BibleBook.Gen,), (BibleBook.Gen, 1), (BibleBook.Gen, 1, 1, 1), (5,), (None,)):
        k.transitions += 1
        r = call(BibleVerse, *a)
        if r[0] == "ok" or not isinstance(r[2], ValueError):
            k.fail("malformed BibleVerse arguments", args=a, got=r)
    for nm in ("Foo", "", "Gen 1", "Genesis 1:1"):
        expect_invalid(k, lambda: BibleVerse(nm, 1, 1), "unknown book name", name=nm)
    k.traces += 1


def jobs(tier):
    out = [("defaults", defaults, ()), ("dropped", dropped, ())] + [("not-numbers-" + b.name, not_numbers, (b,)) for b in (A, C, D)]
    out += shards("facts-real", facts, (REAL,), 16)
    out += [(f"validity-real#{i}", validity, (REAL, i, 16, tier)) for i in range(16)]
    for bib in (A, B, C, D):
        out += shards("facts-" + bib.name, facts, (bib,), 1)
        out.append(("validity-" + bib.name, validity, (bib, 0, 1, "thorough")))
    out += [("revisit-facts", revisit, (facts, 0, 1)), ("revisit-validity", revisit, (validity, 0, 1, "thorough"))]
    return out
