"""C18: for every operation with an options argument, op(flags=F) under global G equals op() under global F (all 16 pairs)."""
from model import *

BOUNDS = {"quick": "all 16 (argument, global) option pairs; Bibles B, C, D, H; every verse and range incl. verse 0 and multi-book as subject; "
                   "every verse/range pair and lists of <= 2 ranges (every grouping) as operands, lists of up to 7 as subjects; every positional form; parse texts of <= 4 pieces" '; lists with gaps of every size between their ranges',
          "thorough": "as quick plus Bible A, lists of <= 3 ranges as subjects and all parse texts of <= 6 pieces"}
ASSUMPTIONS = ["error messages are not compared, only the error kind and parse position"]


def norm(bib, x):
    if isinstance(x, BibleVerse):
        return ("v",) + bib.tv(x)
    if isinstance(x, BibleRange):
        return ("r",) + bib.tr(x)
    if isinstance(x, BibleRangeList):
        return ("l", bib.tn(x))
    if isinstance(x, (bool, int, str, type(None), BibleBook)):
        return x
    return ("?", type(x).__name__)


def outcome(bib, fn, kw):
    try:
        return norm(bib, fn(kw))
    except BibleRefParsingError as e:
        return ("perr", e.start_pos, e.end_pos)
    except Exception as e:
        return ("exc", type(e).__name__)


def compare(k, bib, name, fn, operator=None, **d):
    """fn(kw) runs the operation; operator(None) is the form that takes no options."""
    k.case = (name, d)
    for f in OPTS:
        bibleref.flags = FLAGS[f]
        want = outcome(bib, fn, {})
        if bibleref.flags is not FLAGS[f] and bibleref.flags != FLAGS[f]:
            k.fail("global options changed", op=name, bible=bib.name, options=f, **d)
            bibleref.flags = FLAGS[f]
        for g in OPTS:
            bibleref.flags = FLAGS[g]
            got = outcome(bib, fn, {"flags": FLAGS[f]})
            k.transitions += 1
            if got != want:
                k.fail("explicit options give another result than the same global options", op=name, bible=bib.name,
                       options=f, global_options=g, got=got, want=want, **d)
            if bibleref.flags != FLAGS[g]:
                k.fail("global options changed", op=name, bible=bib.name, options=f, global_options=g, **d)
        if operator is not None:
            bibleref.flags = FLAGS[f]
            got = outcome(bib, operator, None)
            k.transitions += 1
            if got != want:
                k.fail("form without options does not follow the global options", op=name, bible=bib.name,
                       global_options=f, got=got, want=want, **d)
            if bibleref.flags != FLAGS[f]:
                k.fail("global options changed", op=name, bible=bib.name, options=f, **d)
    k.states += 1
    k.traces += 1


STRS = [dict(), dict(abbrev=True), dict(alt_sep=True), dict(nospace=True), dict(force_start_verses=True)]


def books(k, bib):
    bib.install()
    for b in bib.enum:
        d = dict(book=b.name)
        n = b.max_chap_num()
        compare(k, bib, "book.verse_count", lambda kw: b.verse_count(**kw), **d)
        compare(k, bib, "book.range", lambda kw: b.range(**kw), **d)
        compare(k, bib, "book.first_verse", lambda kw: b.first_verse(**kw), **d)
        for rg in (True, False):
            compare(k, bib, "book.chap_ranges", lambda kw: b.chap_ranges(regroup=rg, **kw), regroup=rg, **d)
        for c in range(-1, n + 2):
            compare(k, bib, "book.min_verse_num", lambda kw: b.min_verse_num(c, **kw), chap=c, **d)
            compare(k, bib, "book.first_verse", lambda kw: b.first_verse(c, **kw), chap=c, **d)
            compare(k, bib, "book.chap_range", lambda kw: b.chap_range(c, **kw), chap=c, **d)
            for v in range(-1, 4):
                compare(k, bib, "BibleVerse(b, c, v)", lambda kw: BibleVerse(b, c, v, **kw), chap=c, verse=v, **d)
    compare(k, bib, "whole_bible", lambda kw: BibleRange.whole_bible(**kw))


def verses(k, bib):
    bib.install()
    u = bib.uni("Z")
    for t in u:
        v = bib.V(t)
        d = dict(verse=bib.s(t))
        for c in [None, *range(0, bib.nch(t[0]) + 2)]:
            for m in ("min_verse_num", "first_verse", "is_first_in_chap"):
                compare(k, bib, "verse." + m, lambda kw: getattr(v, m)(c, **kw), chap=c, **d)
        for b in [None, *bib.enum]:
            compare(k, bib, "verse.is_first_in_book", lambda kw: v.is_first_in_book(b, **kw), book=str(b), **d)
        compare(k, bib, "verse.chap_range", lambda kw: v.chap_range(**kw), **d)
        compare(k, bib, "verse.book_range", lambda kw: v.book_range(**kw), **d)
        compare(k, bib, "BibleVerse(verse)", lambda kw: BibleVerse(v, **kw), **d)
        for n in range(-len(u) - 1, len(u) + 2):
            compare(k, bib, "verse.add", lambda kw: v.add(n, **kw), lambda _: v + n, n=n, **d)
            compare(k, bib, "verse.subtract", lambda kw: v.subtract(n, **kw), lambda _: v - n, n=n, **d)
        for t2 in u:
            w = bib.V(t2)
            compare(k, bib, "verse.subtract", lambda kw: v.subtract(w, **kw), lambda _: v - w, other=bib.s(t2), **d)
            compare(k, bib, "BibleRange(start, end)", lambda kw: BibleRange(start=v, end=w, **kw), other=bib.s(t2), **d)


def range_queries(k, bib, shard, n):
    bib.install()
    for i, r in enumerate(bib.ranges("Z")):
        if i % n != shard:
            continue
        x = bib.R(r)
        d = dict(range=bib.s(r))
        for m in ("is_whole_chap", "spans_start_chap", "spans_end_chap", "is_whole_book", "spans_start_book", "spans_end_book",
                  "verse_count", "chap_count", "book_count", "chap_range", "book_range"):
            compare(k, bib, "range." + m, lambda kw: getattr(x, m)(**kw), **d)
        for m in ("chap_count", "book_count"):
            compare(k, bib, f"range.{m}(whole)", lambda kw: getattr(x, m)(whole=True, **kw), **d)
        compare(k, bib, "BibleRange(range)", lambda kw: BibleRange(x, **kw), **d)
        for bb in (False, True):
            for bc in (False, True):
                for nv in (None, 1, 2, 3):
                    for rg in (True, False):
                        if bb or bc or nv:
                            a = dict(by_book=bb, by_chap=bc, num_verses=nv, regroup=rg)
                            compare(k, bib, "range.split", lambda kw: x.split(**a, **kw), args=str(a), **d)
        for s in STRS:
            compare(k, bib, "range.str", lambda kw: x.str(**s, **kw), (lambda _: str(x)) if not s else None, args=str(s), **d)
        compare(k, bib, "range.str in repr", lambda kw: x.str(**kw) in repr(x) if not kw else True, **d)
    k.sample(f"{bib.name}: {d}")


SETOPS = [("union", lambda a, b: a | b), ("intersection", lambda a, b: a & b), ("difference", lambda a, b: a - b),
          ("sym_difference", lambda a, b: a ^ b)]


def ior(a, b): a |= b; return a
def iand(a, b): a &= b; return a
def isub(a, b): a -= b; return a
def ixor(a, b): a ^= b; return a


IOPS = [("union_update", ior), ("intersection_update", iand), ("difference_update", isub), ("sym_difference_update", ixor)]


def range_pairs(k, bib, shard, n):
    bib.install()
    rs = bib.ranges("Z")
    us = bib.uni("Z")
    for i, r in enumerate(rs):
        if i % n != shard:
            continue
        x = bib.R(r)
        for j, o in enumerate([*us, *rs]):
            y = bib.V(o) if j < len(us) else bib.R(o)
            d = dict(range=bib.s(r), other=bib.s(o))
            compare(k, bib, "range.is_adjacent", lambda kw: x.is_adjacent(y, **kw), **d)
            for m, op in SETOPS:
                compare(k, bib, "range." + m, lambda kw: getattr(x, m)(y, **kw), lambda _: op(x, y), **d)


def lists(bib, n):
    """All nested lists of exactly n ranges."""
    for seq in itertools.product(bib.ranges("Z"), repeat=n):
        for sz in set_partitions_seq(n):
            yield nest(seq, sz)


def inplace(bib, l, m, args):
    def f(kw):
        x = bib.L(l)
        getattr(x, m)(*args, **kw)
        return x
    return f


def list_queries(k, bib, n, shard, sh):
    bib.install()
    for i, l in enumerate(lists(bib, n)):
        if i % sh != shard:
            continue
        x = bib.L(l)
        d = dict(list=bib.s(l))
        for m in ("verse_count", "chap_count", "book_count", "chap_range", "book_range"):
            compare(k, bib, "list." + m, lambda kw: getattr(x, m)(**kw), **d)
        for m in ("chap_count", "book_count"):
            compare(k, bib, f"list.{m}(whole)", lambda kw: getattr(x, m)(whole=True, **kw), **d)
        for m in ("merge", "regroup"):
            compare(k, bib, "list." + m, inplace(bib, l, m, ()), **d)
        for s in STRS + [dict(preserve_groups=False), dict(preserve_groups=False, force_start_verses=True)]:
            compare(k, bib, "list.str", lambda kw: x.str(**s, **kw), (lambda _: str(x)) if not s else None, args=str(s), **d)
        compare(k, bib, "list.str in repr", lambda kw: x.str(**kw) in repr(x) if not kw else True, **d)
        compare(k, bib, "BibleRangeList(list)", lambda kw: BibleRangeList(x, **kw), **d)
        compare(k, bib, "BibleRangeList(nested)", lambda kw: BibleRangeList([list(g) for g in x.groups], **kw), **d)


def list_pairs(k, bib, ops, lists_of, shard, sh):
    bib.install()
    i = 0
    for l in lists_of(bib):
        i += 1
        if i % sh != shard:
            continue
        x = bib.L(l)
        for o in ops(bib):
            y = bib.V(o) if isinstance(o[0], int) else bib.R(o) if isinstance(o, tuple) else bib.L(o)
            d = dict(list=bib.s(l), other=bib.s(o))
            compare(k, bib, "list.contains", lambda kw: x.contains(y, **kw), lambda _: y in x, **d)
            for m, op in SETOPS:
                compare(k, bib, "list." + m, lambda kw: getattr(x, m)(y, **kw), lambda _: op(x, y), **d)
            for m, op in IOPS:
                compare(k, bib, "list." + m, inplace(bib, l, m, (y,)), lambda _: op(bib.L(l), y), **d)


def positional(k, bib, shard, n):
    bib.install()
    bs = bib.enum[:2] + bib.enum[-1:]
    i = 0
    for sb in bs:
        for sc in (None, 1, 2):
            for sv in (None, 0, 1, 2):
                i += 1
                if i % n != shard:
                    continue
                for eb in (None, *bs):
                    for ec in (None, 1, 2):
                        for ev in (None, 0, 1):
                            a = (sb, sc, sv, eb, ec, ev)
                            compare(k, bib, "BibleRange(...)", lambda kw: BibleRange(*a, **kw), args=str(a))


PIECES = ["Gen", "Psa", "Jude", " ", "0", "1", "2", ":", "-", ";", ","]


def texts(n):
    """Texts of n pieces starting with a book, no two neighbouring punctuation pieces or words."""
    def ok(a, b):
        w = lambda x: x[0].isalpha()
        p = lambda x: x in ":-;,"
        return not (w(a) and w(b)) and not (p(a) and p(b)) and not (w(a) and b == ":") and not (a in "012" and b in "012")
    for head in ("Gen ", "Psa ", "Jude "):
        yield head.strip()
        for m in range(1, n):
            for seq in itertools.product(["Gen", "Psa", "Jude", "0", "1", "2", ":", "-", ";", ","], repeat=m):
                if m > 1 or True:
                    if all(ok(a, b) for a, b in zip(seq, seq[1:])) and not seq[-1] in ":-":
                        yield head + "".join(seq)


def parsing(k, bib, n, shard, sh):
    bib.install()
    for i, t in enumerate(texts(n)):
        if i % sh != shard:
            continue
        compare(k, bib, "BibleRangeList(str)", lambda kw: BibleRangeList(t, **kw), text=t)
        compare(k, bib, "BibleRange(str)", lambda kw: BibleRange(t, **kw), text=t)
        compare(k, bib, "BibleVerse(str)", lambda kw: BibleVerse(t, **kw), text=t)
    k.sample(f"{bib.name}: {t!r}")


def one(bib):
    return lists(bib, 1)


def two(bib):
    return lists(bib, 2)


def edge_two(bib):
    """Lists of two ranges over a few telling ranges."""
    u = bib.uni("Z")
    rs = [(u[0], u[0]), (u[1], u[-1]), (u[0], u[2]), (u[2], u[3]), (u[-2], u[-1]), (u[-3], u[-3])]
    for seq in itertools.product(rs, repeat=2):
        for sz in set_partitions_seq(2):
            yield nest(seq, sz)


def gap_lists(bib):
    """Lists of two ranges that meet at a heading, leaving it out, including it or overlapping it."""
    u = bib.uni("Z")
    for i, h in enumerate(u):
        if h[2] == 0 and 0 < i < len(u) - 1:
            left = [(u[i - 1], u[i - 1]), (u[0], u[i - 1]), (u[i - 1], h)]
            right = [(u[i + 1], u[i + 1]), (u[i + 1], u[-1]), (h, u[i + 1])]
            for a in left:
                for b in right:
                    yield [[a, b]]
                    yield [[b], [a]]


def few(bib):
    return [l for i, l in enumerate(edge_two(bib)) if i % 9 == 4]


def refs(bib):
    return [*bib.uni("Z"), *bib.ranges("Z")]


H = Bible("H", [("Psa", [1, 2], {1}), ("Obad", [1], {1}), ("Gen", [2], ())])       # headings at the very start of books and of the Bible


def longer(bib):
    """Lists of 3-7 ranges: telling ranges in rotation, in three groupings."""
    base = [l[0][0] for l in edge_two(bib)][::12]
    for n in (3, 4, 5, 7):
        for off in range(len(base)):
            for step in (1, 2, 5):
                seq = [base[(off + j * step) % len(base)] for j in range(n)]
                for sz in {(n,), (1,) * n, (2,) * (n // 2) + (1,) * (n % 2)}:
                    yield nest(seq, sz)


def long_queries(k, bib, shard, sh):
    global lists
    keep = lists
    lists = lambda b, n: longer(b)
    try:
        list_queries(k, bib, 0, shard, sh)
    finally:
        lists = keep


def jobs(tier):
    out = [("books-H", books, (H,)), ("verses-H", verses, (H,))] + shards("ranges-H", range_queries, (H,), 2) + shards("positional-H", positional, (H,), 2)
    out += shards("longer-C", long_queries, (C,), 4) + shards("longer-H", long_queries, (H,), 4)
    bibs = [B, C, D] + ([A] if tier == "thorough" else [])
    for b in bibs:
        out += [(f"books-{b.name}", books, (b,)), (f"verses-{b.name}", verses, (b,))]
        out += shards(f"ranges-{b.name}", range_queries, (b,), 2)
        out += shards(f"positional-{b.name}", positional, (b,), 2)
    for b in ([B, C] if tier == "quick" else bibs):
        out += shards(f"pairs-{b.name}", range_pairs, (b,), 4 if tier == "quick" else 16)
    out += shards("lists1-D", list_queries, (D, 1), 2)
    out += shards("lists2-C", list_queries, (C, 2), 4)
    out += shards("listpairs-C", list_pairs, (C, refs, edge_two), 4)
    out += shards("listlist-C0", list_pairs, (C, few, edge_two), 4)
    out += shards("listpairs1-B", list_pairs, (B, refs, one), 4)
    out += shards("parse-B", parsing, (B, 4), 4)
    for b in (B, C, H):
        out += shards(f"gaps-{b.name}", list_pairs, (b, refs, gap_lists), 2)
    if tier == "thorough":
        out += shards("lists2-B", list_queries, (B, 2), 16)
        out += shards("lists3-C", list_queries, (C, 3), 16)
        out += shards("listpairs2-C", list_pairs, (C, refs, two), 16)
        out += shards("listpairs2-B", list_pairs, (B, refs, two), 16)
        out += shards("listlist2-C", list_pairs, (C, two, edge_two), 16)
        out += shards("listlist-C", list_pairs, (C, edge_two, edge_two), 8)
        out += shards("parse6-B", parsing, (B, 6), 32)
    return out
