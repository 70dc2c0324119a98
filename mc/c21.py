"""C21: sequences of replacements of the Bible data; after every step everything observable is compared with a model of the current data only."""
import copy
from model import *
import names as onames

BOUNDS = {"quick": "4 components (order, names, chapters/verses, verse 0s) x 3-4 values: all sequences of <= 2 replacements from the default data, plus all "
                   "sequences of 4 that replace each component once (24 orders x 24 value choices), each followed by restoring in both orders" '; all questions of C04-C06, C09, C12-C14, C22 asked of the same objects while three data sets alternate; verse counts after each replacement',
          "thorough": "all sequences of <= 3 replacements, restored in all 24 orders for the full replacements"}
ASSUMPTIONS = ["books in the order without chapter data, or out of the order, are only used where the data says something about them",
               "replacements assign new containers; changing a container in place after assigning it is not covered"]
d = bible_data()
B_ = BibleBook
g = GOLDEN
FULL_O = [B_[n] for n in g["order"]]
FULL_M = {B_[n]: list(m) for n, m in g["max_verses"].items()}
FULL_Z = {B_[n]: set(z) for n, z in g["verse_0s"].items()}
FULL_N = {B_[n]: tuple(e) for n, e in g["names"].items()}

VALUES = {
    "book_order": [None, [B_.Gen, B_.Obad, B_.Psa, B_.Jude], [B_.Jude, B_.Psa, B_.Gen], FULL_O[::-1]],
    "max_verses": [None, {B_.Gen: [2, 3], B_.Obad: [2], B_.Psa: [1, 2, 2], B_.Jude: [1], B_.Rev: [4]},
                   {B_.Gen: [1], B_.Psa: [3, 1], B_.Jude: [2, 2], B_.Obad: [1, 1, 1]}],
    "verse_0s": [None, {}, {B_.Gen: {1}, B_.Psa: {2}, B_.Jude: {1, 2}}],
    "name_data": [None, {B_.Gen: ("Ap", "Apple", 2, ["Gn"]), B_.Psa: ("1Pl", "1 Plum", 2, ["1 Plm", "Genesis"]), B_.Jude: ("Ju", "Juniper Tree", 2, []),
                         B_.Obad: ("Pe", "Pear", 2, ["Psa"])},
                  {b: e for b, e in FULL_N.items() if b not in (B_.Gen, B_.Rev)},
                  # the same titles with other abbreviations, prefix lengths and alternative names
                  {b: ("Q" + e[0] if e[0][0].isalpha() else e[0] + "q", e[1], len(e[1].replace(" ", "")), ["Foo"] if b is B_.Gen else e[3][:1]) for b, e in FULL_N.items()}],
}
DEFAULTS = {"book_order": FULL_O, "max_verses": FULL_M, "verse_0s": FULL_Z, "name_data": FULL_N}
COMPS = ["book_order", "name_data", "max_verses", "verse_0s"]
TEXTS = ["Gen", "Genesis", "Gn", "Ap", "Apple", "appl", "Psa", "Psalms", "1 Plum", "1pl", "I Pl", "1 Plm", "Ju", "Jude", "Juniper Tree", "JuniperTree",
         "Pe", "Pear", "Obad", "Obd", "Rev", "Revelation", "The Revelation", "Matt", "1 Jn", "Exodus", "Song of Solomon", "Foo", "QGen", "QObad", "QRev", "1Jnq", "Genes", "1", ""]
ORIG = {}
_bib = {}


def val(comp, i):
    return ORIG[comp] if i == 0 else VALUES[comp][i]


def mval(comp, i):
    return DEFAULTS[comp] if i == 0 else VALUES[comp][i]


def bible(st):
    """Model Bible of a state (None if a book of the order has no chapters)."""
    key = (st["book_order"], st["max_verses"], st["verse_0s"])
    if key not in _bib:
        o, m, z = (mval(c, st[c]) for c in ("book_order", "max_verses", "verse_0s"))
        _bib[key] = Bible(str(key), [(b.name, m[b], z.get(b, set())) for b in o]) if all(b in m for b in o) else None
    return _bib[key]


def fresh():
    for c in COMPS:
        ORIG[c] = getattr(d, c)


def probe(k, st, hist):
    k.case = (st, hist)
    k.states += 1
    k.traces += 1
    D = dict(state=str(st), history=str(hist))
    o, m, z, nm = (mval(c, st[c]) for c in ("book_order", "max_verses", "verse_0s", "name_data"))
    for c in COMPS:
        if getattr(d, c) != val(c, st[c]):
            k.fail("data read back differs", comp=c, **D)
    pos = {b: i for i, b in enumerate(o)}
    few = [b for b in (B_.Gen, B_.Psa, B_.Jude, B_.Obad, B_.Rev, B_.Matt)]
    # neighbours
    for b in B_:
        i = pos.get(b)
        k.eq(b.next(), o[i + 1] if i is not None and i + 1 < len(o) else None, "next", book=b.name, **D)
        k.eq(b.prev(), o[i - 1] if i else None, "prev", book=b.name, **D)
    for a in few:
        for b in few:
            if a in pos and b in pos:
                k.eq((a < b, a <= b, a > b, a >= b), (pos[a] < pos[b], pos[a] <= pos[b], pos[a] > pos[b], pos[a] >= pos[b]), "book order", books=(a.name, b.name), **D)
    # chapters and verses
    for b in few:
        mv = m.get(b)
        if mv is None:
            k.eq(b.max_chap_num(), 0, "chapters of a book without data", book=b.name, **D)
            k.eq(b.chap_count(), 0, "chapters of a book without data", book=b.name, **D)
        chs = mv or []
        k.eq(b.max_chap_num(), len(chs), "max_chap_num", book=b.name, **D)
        for f in ("", "Z"):
            heads = sum(c <= len(chs) for c in z.get(b, ())) if f else 0
            k.eq(b.verse_count(flags=FLAGS[f]), sum(chs) + heads, "verse_count", book=b.name, options=f, **D)
        for c in {0, 1, 2, 3, 4, len(chs), len(chs) + 1, 23, 150}:
            mx = chs[c - 1] if 1 <= c <= len(chs) else None
            for f in ("", "Z"):
                bibleref.flags = FLAGS[f]
                mn = 0 if f and c in z.get(b, ()) else 1
                for v in {0, 1, 2, 3, 4, mx or 1, (mx or 1) + 1, 30}:
                    r = call(BibleVerse, b, c, v)
                    want = mx is not None and mn <= v <= mx
                    k.transitions += 1
                    if (r[0] == "ok") != want or (not want and not isinstance(r[2], InvalidReferenceError)):
                        k.fail("verse validity", verse=(b.name, c, v), options=f, want=want, got=r[:2], **D)
                if mx is not None:
                    k.eq((b.min_verse_num(c), b.max_verse_num(c)), (mn, mx), "verse numbers", book=b.name, chap=c, options=f, **D)
    # names
    en = {b.name: e for b, e in nm.items()}
    got_names = {}
    for t in TEXTS:
        r = onames.resolve(t, en)
        if len(r) > 1:
            continue
        want = B_[min(r)] if r else None
        got_names[t] = want
        k.eq(BibleBook.from_str(t), want, "book name", text=t, **D)
    for b in few:
        e = nm.get(b)
        k.eq((b.abbrev, b.title), (e[0], e[1]) if e else (None, None), "abbreviation and title", book=b.name, **D)
    # references
    bibleref.flags = BibleFlag.NONE
    for b in few:
        e, mv = nm.get(b), m.get(b)
        if mv is None or b not in pos:
            continue
        if e is None:
            continue
        r0 = onames.resolve(e[1], en)
        if r0 != {b.name}:
            continue
        n = len(mv)
        for t, want in ((e[1], ((1, 1), (n, mv[-1]))), (f"{e[1]} 1", ((1, 1), (1, 1)) if n == 1 else ((1, 1), (1, mv[0]))), (f"{e[0]} {n}:{mv[-1]}", ((n, mv[-1]),) * 2),
                        (f"{e[1]} {n + 1}:1", None), (f"{e[1]} {n}:{mv[-1] + 1}", None)):
            if onames.resolve(t.split(" ")[0] if t == e[0] else e[0], en) != {b.name}:
                continue
            r = call(BibleRangeList, t)
            k.transitions += 1
            if want is None:
                if r[0] == "ok" or not isinstance(r[2], BibleRefParsingError):
                    k.fail("parsing something that is not in the data", text=t, got=r[:2], **D)
            else:
                got = None if r[0] != "ok" or len(r[1]) != 1 else tuple((v.book, v.chap_num, v.verse_num) for v in (r[1][0].start, r[1][0].end))
                if got != tuple((b, *w) for w in want):
                    k.fail("parsing follows other data", text=t, got=r[1], want=want, **D)
                elif str(r[1][0]) != BibleRangeList(str(r[1][0])).str() or not str(r[1][0]).startswith(e[1]):
                    k.fail("formatting follows other data", text=t, got=str(r[1][0]), **D)
    for t, w in got_names.items():
        if w is None and t and not t.isdigit():
            r = call(BibleRangeList, t + " 1")
            k.transitions += 1
            if r[0] == "ok" or not isinstance(r[2], BibleRefParsingError):
                k.fail("a text that names no book is parsed", text=t, got=r[:2], **D)
    # the Bible as a whole
    bib = bible(st)
    if bib is not None:
        for f in ("", "Z", "M", "MZ"):
            bibleref.flags = FLAGS[f]
            k.eq(bib.tr(BibleRange.whole_bible()), (bib.first(0, None, f), bib.last(bib.n - 1)), "whole Bible", options=f, **D)
            for b in few:
                i = pos.get(b)
                if i is None:
                    continue
                for t in {bib.last(i), bib.first(i, None, f)}:
                    for s in (1, -1, 2, -2, 5):
                        w = bib.step(t, s, f)
                        k.eq(bib.tv(bib.V(t) + s), w, "verse arithmetic", verse=bib.s(t), n=s, options=f, **D)
                    if "M" in f and i + 1 < bib.n:
                        t2 = bib.first(i + 1, None, f)
                        p = bib.pos(f)
                        k.eq(bib.V(t2) - bib.V(t), p[t2] - p[t], "verse difference", verses=bib.s((t, t2)), options=f, **D)
                        k.eq(bib.V(t) < bib.V(t2), True, "verse order", verses=bib.s((t, t2)), **D)
        if len(o) <= 4:
            for f in OPTS:
                bibleref.flags = FLAGS[f]
                w = BibleRange.whole_bible()
                if sum(map(sum, (m[b] for b in o))) < 40:
                    k.eq([bib.tv(v) for v in w], bib.uni(f), "iteration over the Bible", options=f, **D)
                k.eq(w.verse_count(), len(bib.uni(f)), "verses of the Bible", options=f, **D)
                k.eq(w.chap_count(), sum(bib.nch(i) for i in range(bib.n)), "chapters of the Bible", **D)
                l = BibleRangeList([bib.R((bib.first(i, None, f), bib.last(i))) for i in range(bib.n)][::-1])
                l.sort()
                k.eq([r.start.book for r in l], list(o), "sorting", **D)
                l.merge()
                k.eq(bib.tl(l), bib.merge([(bib.first(i, None, f), bib.last(i)) for i in range(bib.n)], f), "merging", options=f, **D)
    bibleref.flags = BibleFlag.NONE


def apply(st, move):
    c, i = move
    setattr(d, c, val(c, i))
    return {**st, c: i}


INIT = {c: 0 for c in COMPS}


def run(k, seq, restore_orders, every=True):
    snap = {c: [copy.deepcopy(v) for v in VALUES[c]] for c in COMPS}
    st = dict(INIT)
    for j, mv in enumerate(seq):
        st = apply(st, mv)
        k.transitions += 1
        if every or j == len(seq) - 1:
            probe(k, st, seq[:j + 1])
    for ro in restore_orders:
        for mv in seq if ro is not restore_orders[0] else ():
            st = apply(st, mv)
        for c in ro:
            st = apply(st, (c, 0))
        probe(k, st, (*seq, "restored in the order", ro))
    for c in COMPS:
        if VALUES[c] != snap[c] or ORIG[c] != DEFAULTS[c] if c != "name_data" else VALUES[c] != snap[c]:
            k.fail("replacing the data changed the containers assigned", comp=c, history=str(seq))


MOVES = [(c, i) for c in COMPS for i in range(len(VALUES[c]))]


def short_seqs(k, depth, shard, n):
    fresh()
    probe(k, INIT, ())
    for i, seq in enumerate(itertools.product(MOVES, repeat=depth)):
        if i % n == shard:
            run(k, seq, [COMPS], every=False)
    k.sample(str(seq))


def full_seqs(k, orders, shard, n):
    fresh()
    i = 0
    for vals in itertools.product(*[range(1, min(3 if c == "name_data" else 4, len(VALUES[c]))) for c in COMPS]):
        choice = dict(zip(COMPS, vals))
        for perm in itertools.permutations(COMPS):
            i += 1
            if i % n == shard:
                ros = list(itertools.permutations(COMPS)) if orders else [perm[::-1]] if i % 2 else [perm]
                run(k, tuple((c, choice[c]) for c in perm), ros, every=True)
    k.sample(str(choice))


def queries(k, part):
    """What the other properties say about ranges and lists, on data replaced and restored in between."""
    import c04, c05, c06, c09, c12, c13, c14, c22
    two = [("", "global"), ("MZ", "arg")]
    fn, args = {"count": (c04.small, (0, 1)), "split": (c05.small, (0, 4)), "sets": (c06.pairs, (0, 3)), "totals": (c09.lists, (1, 2, two, None, 0, 3)),
                "strings": (c12.ranges, (two, True, None, 0, 1)), "list strings": (c13.explore, (None, 1, 2, two, c13.F4[:2], True, 0, 7)),
                "groups": (c14.explore, (None, 1, 2, two, True, 0, 3)), "headings": (c22.small, ())}[part]
    revisit(k, fn, *args)


def jobs(tier):
    out = shards("one", short_seqs, (1,), 2) + shards("two", short_seqs, (2,), 4)
    out += shards("full", full_seqs, (False,), 8)
    out += [("queries-" + p, queries, (p,)) for p in ("count", "split", "sets", "totals", "strings", "list strings", "groups", "headings")]
    if tier == "thorough":
        out += shards("three", short_seqs, (3,), 32) + shards("full-orders", full_seqs, (True,), 32)
    return out
