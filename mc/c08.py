"""C08: sort and merge."""
from model import *
from grouping import natural_groups

BOUNDS = {"quick": "merge: every list of <=2 ranges of Bible A-like size (B, C, D small) in every grouping and mode, <=3 over B/C, <=4 over T; "
                   "sort: every sequence of length <=7 over 3 keys and every permutation of 7 (with distinguishable equal items), "
                   "every 3-range list; merge of every verse set of a 10-verse Bible in 7 shapes (up to 20 ranges); structured lists of up to 4000 items; every follow-up edit from a menu" '; longer placed lists, alternating data sets',
          "thorough": "merge: <=3 over A, <=4 over C; sort: sequences of length <=9 over 3 keys, permutations of 8"}
ASSUMPTIONS = ["operands with a verse-0 endpoint are only considered while the verse-0 option is in effect"]


class K:
    """Sortable item with identity: compares by key only."""
    __slots__ = ("key", "tag")

    def __init__(self, key, tag):
        self.key, self.tag = key, tag

    def __eq__(self, o): return self.key == o.key
    def __lt__(self, o): return self.key < o.key
    def __le__(self, o): return self.key <= o.key
    def __gt__(self, o): return self.key > o.key
    def __ge__(self, o): return self.key >= o.key
    def __hash__(self): return hash(self.key)
    def __repr__(self): return f"{self.key}.{self.tag}"


def observe(k, lst, want, groups, what, **d):
    """lst must consist of exactly the objects in want (by identity), in that order, in those groups, seen every way."""
    n = len(want)
    ids = [id(x) for x in want]
    views = [("forward", list(lst)), ("backward", list(reversed(lst))[::-1]),
             ("groups", [x for g in lst.groups for x in g]),
             ("index", [lst[i] for i in range(n)] if len(lst) == n else []),
             ("negative index", [lst[i] for i in range(-n, 0)] if len(lst) == n else [])]
    k.eq(len(lst), n, what + ": length", **d)
    for name, v in views:
        k.transitions += 1
        if [id(x) for x in v] != ids:
            k.fail(what + ": wrong items seen by " + name, got=v[:20], want=want[:20], **d)
    if groups is not None:
        k.eq([len(g) for g in lst.groups], groups, what + ": groups", **d)
        k.eq(len(lst.groups), len(groups), what + ": group count", **d)


def sort_items(k, keys, maxlen, perm, shard, n):
    """Every sequence over the keys (and every permutation), with distinguishable equal items, in three groupings."""
    i = 0
    seqs = itertools.chain(*(itertools.product(range(keys), repeat=ln) for ln in range(maxlen + 1)),
                           itertools.permutations(range(perm)) if perm else ())
    for seq in seqs:
        i += 1
        if i % n != shard:
            continue
        items = [K(x, t) for t, x in enumerate(seq)]
        want = sorted(items, key=lambda x: x.key)
        k.states += 1
        k.case = seq
        for grouping in ("one", "each"):
            lst = GroupedList()
            for x in items:
                lst.append(x, new_group=(grouping == "each"))
            lst.sort()
            observe(k, lst, want, [len(items)] if items else [], "sort", seq=seq, grouping=grouping)
            if grouping == "one":
                lst.sort()
                observe(k, lst, want, None, "sort twice", seq=seq, grouping=grouping)
            # further edits on the sorted list
            x = K(9, "x")
            lst.append(x); lst.prepend(x, new_group=True)
            observe(k, lst, [x] + want + [x], [1, len(want) + 1] if want else None, "edit after sort", seq=seq, grouping=grouping)
            k.traces += 1
    k.sample({"seq": str(seq)})


def big(k, size):
    half = size // 2
    shapes = {"interleaved": [j for i in range(half) for j in (i, i + half)], "reversed": list(range(size, 0, -1)),
              "sorted": list(range(size)), "halves swapped": list(range(half, size)) + list(range(half)), "equal": [1] * size,
              "two halves alternating": list(range(0, size, 2)) + list(range(1, size, 2)), "sawtooth": [i % 7 for i in range(size)]}
    for name, keys in shapes.items():
        k.states += 1
        k.case = (name, size)
        items = [K(x, t) for t, x in enumerate(keys)]
        lst = GroupedList(items)
        r = call(lst.sort)
        if r[0] != "ok":
            k.fail("sort of a long list failed", shape=name, size=size, got=r[1])
            continue
        want = sorted(items, key=lambda x: x.key)
        k.transitions += 3
        if [id(x) for x in lst] != [id(x) for x in want]:
            k.fail("sort of a long list: wrong order", shape=name, size=size)
        if [id(x) for x in reversed(lst)] != [id(x) for x in reversed(want)]:
            k.fail("sort of a long list: wrong backward order", shape=name, size=size)
        k.eq([len(g) for g in lst.groups], [len(items)], "sort of a long list: groups", shape=name, size=size)
        k.traces += 1
    k.sample(f"{len(shapes)} shapes of {size} items")


def big_merge(k, verses):
    """Merging a long list (many pieces of one book given in several orders)."""
    REAL.install()
    bibleref.flags = BibleFlag.NONE
    b = REAL.bidx[BibleBook.Psa]
    u = [t for t in REAL.uni("") if t[0] == b][:verses]
    orders = {"ascending": u, "descending": u[::-1], "even then odd": u[::2] + u[1::2]}
    gaps = {"even only": u[::2]}
    for name, o in {**orders, **gaps}.items():
        k.states += 1
        k.case = name
        lst = REAL.L([[(t, t) for t in o]])
        r = call(lst.merge)
        if r[0] != "ok":
            k.fail("merge of a long list failed", order=name, size=len(o), got=r[1])
            continue
        want = REAL.merge([(t, t) for t in o], "")
        if REAL.tl(lst) != want or REAL.tl(reversed(lst)) != want[::-1]:
            k.fail("merge of a long list: wrong ranges", order=name, got=REAL.s(REAL.tl(lst)[:4]), want=REAL.s(want[:4]))
        k.transitions += 1
        k.traces += 1


def merge(k, bib, maxlen, modes, minlen, shard, n):
    bib.install()
    for mode in modes:
        kw = set_mode(mode); opt = mode[0]
        rs = bib.ranges(opt)
        i = 0
        for ln in range(minlen, maxlen + 1):
            for seq in itertools.product(rs, repeat=ln):
                i += 1
                if i % n != shard:
                    continue
                k.states += 1
                want = bib.merge(seq, opt)
                wantg = natural_groups(bib, want, opt)
                d = dict(bible=bib.name, list=bib.s(list(seq)), mode=mode)
                for sizes in (set_partitions_seq(ln) if ln <= 3 else [(ln,), (1,) * ln]):
                    k.case = (d, sizes)
                    l = bib.L(nest(list(seq), sizes))
                    r = call(l.merge, **kw)
                    k.transitions += 2
                    if r[0] != "ok":
                        k.fail("merge failed", got=r[1], sizes=sizes, **d)
                        continue
                    got = bib.tn(l)
                    if got != wantg or bib.tl(reversed(l)) != want[::-1] or len(l) != len(want) or bib.tl(l) != want:
                        k.fail("merge: wrong list", got=bib.s(got), want=bib.s(wantg), sizes=sizes, **d)
                    k.traces += 1
                l.merge(**kw)
                k.transitions += 1
                if bib.tn(l) != wantg:
                    k.fail("merge is not idempotent", got=bib.s(bib.tn(l)), want=bib.s(wantg), **d)
                # consistent for further edits
                x = bib.R(rs[-1])
                l.append(x, new_group=True)
                l.insert(0, x)
                if want:
                    w2 = [list(g) for g in wantg] + [[rs[-1]]]
                    w2[0].insert(0, rs[-1])
                else:
                    w2 = [[rs[-1], rs[-1]]]
                k.transitions += 1
                if bib.tn(l) != w2 or bib.tl(reversed(l)) != [r for g in w2 for r in g][::-1]:
                    k.fail("editing after merge", got=bib.s(bib.tn(l)), want=bib.s(w2), **d)
    k.sample({"bible": bib.name, "list": bib.s(list(seq)), "mode": str(mode)})


def merge_subsets(k, bib, modes, shard, n):
    """Every verse set in every shape (up to twice as many ranges as verses, overlapping, nested, out of order)."""
    from sets import subsets, as_ranges, FORMS
    bib.install()
    for mode in modes:
        kw = set_mode(mode); opt = mode[0]
        for i, s in enumerate(subsets(bib, opt)):
            if i % n != shard:
                continue
            k.states += 1
            for form in FORMS:
                seq = as_ranges(bib, s, opt, form)
                want = bib.merge(seq, opt)
                wantg = natural_groups(bib, want, opt)
                for grouping in (1, 2, 10**6):
                    k.case = (bib.name, seq, mode, grouping)
                    l = bib.L([seq[j:j + grouping] for j in range(0, len(seq), grouping)])
                    l.merge(**kw)
                    k.transitions += 1
                    if bib.tn(l) != wantg or bib.tl(reversed(l)) != want[::-1] or len(l) != len(want):
                        k.fail("merge: wrong list", got=bib.s(bib.tn(l)), want=bib.s(wantg), list=bib.s(seq), mode=mode, grouping=grouping)
                    k.traces += 1


def sort_ranges(k, bib, maxlen, opts, shard, n):
    """BibleRangeList.sort with and without regrouping (follows the global options)."""
    bib.install()
    for opt in opts:
        bibleref.flags = FLAGS[opt]
        rs = bib.ranges(opt)
        i = 0
        for ln in range(0, maxlen + 1):
            for seq in itertools.product(rs, repeat=ln):
                i += 1
                if i % n != shard:
                    continue
                k.states += 1
                objs = [bib.R(r) for r in seq]
                want = sorted(range(ln), key=lambda j: seq[j])
                wobj = [objs[j] for j in want]
                ng = [len(g) for g in natural_groups(bib, [seq[j] for j in want], opt)]
                d = dict(bible=bib.name, list=bib.s(list(seq)), opt=opt)
                k.case = d
                for sizes in {(ln,), (1,) * ln} if ln else {()}:
                    for regroup in (None, True, False):
                        l = BibleRangeList()
                        for g in nest(objs, sizes):
                            l.append_group(g)
                        if regroup is None:
                            l.sort()
                        else:
                            l.sort(regroup=regroup)
                        groups = ([ln] if ln else []) if regroup is False else ng
                        k.transitions += 1
                        if list(l) != wobj or list(reversed(l)) != wobj[::-1] \
                                or [len(g) for g in l.groups] != groups:
                            k.fail("sort of ranges", got=bib.s(bib.tn(l)), want=bib.s([seq[j] for j in want]), groups=groups,
                                   regroup=regroup, **d)
                        k.traces += 1
    k.sample({"bible": bib.name, "list": bib.s(list(seq)), "opt": opt})


def histories(k, bib, opts, depth, shard, n):
    """Merging and sorting a list after every history of edits, merges and sorts."""
    import hist

    def probe(k, l, groups, opt, h):
        d = dict(bible=bib.name, history=h, opt=opt)
        flat = [r for g in groups for r in g]
        k.eq((bib.tn(l), bib.tl(reversed(l)), len(l), len(l.groups)), (groups, flat[::-1], len(flat), len(groups)), "list after edits", **d)
        x = BibleRangeList(l)
        x.sort(regroup=False)
        k.eq((bib.tn(x), bib.tl(reversed(x))), ([sorted(flat)] if flat else [], sorted(flat)[::-1]), "sort after edits", **d)
        l.sort()
        k.eq((bib.tn(l), bib.tl(reversed(l))), (natural_groups(bib, sorted(flat), opt), sorted(flat)[::-1]), "sort after edits", **d)
        x.merge()
        l.merge()
        w = bib.merge(flat, opt)
        for y in (x, l):
            k.eq((bib.tn(y), bib.tl(reversed(y))), (natural_groups(bib, w, opt), w[::-1]), "merge after edits", **d)

    def cool(l):
        len(l), list(l), list(reversed(l)), len(l.groups)
    hist.explore(k, bib, opts, depth, cool, probe, None, shard, n)


def longer(k, sizes, pair_sizes, modes, shard, n):
    """Lists of the real Bible with special elements at every position, as they are and reversed, in three groupings: sorted and merged."""
    REAL.install()
    for mode in modes:
        kw = set_mode(mode); opt = mode[0]
        for i, seq in enumerate(placed(opt, sizes, pair_sizes)):
            if i % n != shard:
                continue
            if i % 2:
                seq = seq[::-1]
            ln = len(seq)
            w = REAL.merge(seq, opt)
            wg = natural_groups(REAL, w, opt)
            k.states += 1
            k.case = (seq, mode)
            d = dict(list=REAL.s(seq), mode=mode)
            for size in (1, 3, ln):
                l = REAL.L([seq[j:j + size] for j in range(0, ln, size)])
                m = BibleRangeList(l)
                l.merge(**kw)
                k.eq((REAL.tn(l), REAL.tl(reversed(l)), len(l)), (wg, w[::-1], len(w)), "merge of a longer list", size=size, **d)
                m.sort(regroup=False)
                k.eq((REAL.tn(m), REAL.tl(reversed(m))), ([sorted(seq)], sorted(seq)[::-1]), "sort of a longer list", size=size, **d)
                k.traces += 1


S1 = Bible("S1", [("Gen", [2, 1], ()), ("Psa", [1], {1})])


def jobs(tier):
    out = [("big-4000", big, (4000,)), ("big-1023", big, (1023,)), ("big-merge", big_merge, (1500,))]
    out += shards("sort-items", sort_items, (3, 7, 7), 8)
    out += shards("sort-ranges-B3", sort_ranges, (C, 3, OPTS), 8)
    out += shards("sort-ranges-A2", sort_ranges, (A, 2, OPTS), 8)
    two = [("", "global"), ("MZ", "arg")]
    out += shards("merge-C3", merge, (C, 3, [("Z", "global"), ("M", "arg")], 0), 8)
    out += shards("merge-B2", merge, (B, 2, MODES, 0), 4)
    out += shards("merge-A2", merge, (A, 2, two, 0), 12)
    out += shards("merge-D2", merge, (D, 2, [("M", "global")], 0), 4)
    out += shards("merge-T4", merge, (T, 4, [("", "global"), ("M", "global")], 4), 8)
    from sets import SUB, SUB10
    out += shards("merge-subsets", merge_subsets, (SUB10, [("", "global"), ("MZ", "arg")]), 8)
    out += shards("histories", histories, (E, ["", "M"], 2), 8)
    out += shards("histories-C", histories, (C, ["Z"], 2), 8)
    out += shards("longer", longer, ((6, 9, 17, 40), (5, 8), [("", "arg"), ("MZ", "global")]), 16)
    out += [("revisit", revisit, (merge, 2, MODES, 0, 0, 1)), ("revisit-sort", revisit, (sort_ranges, 2, OPTS, 0, 1))]
    if tier == "thorough":
        out += shards("longer-all", longer, ((6, 9, 17, 40, 80), (5, 8, 13), MODES), 64)
        out += shards("histories-3", histories, (E, ["", "M"], 3), 64)
        out += shards("merge-subsets-all", merge_subsets, (SUB10, MODES), 16)
        out += shards("sort-items-9", sort_items, (3, 9, 8), 32)
        out += shards("sort-ranges-C3", sort_ranges, (B, 3, OPTS), 16)
        out += shards("merge-C3-all", merge, (C, 3, MODES, 3), 32)
        out += shards("merge-B3", merge, (B, 3, MODES, 3), 32)
        out += shards("merge-A2-all", merge, (A, 2, MODES, 0), 32)
        out += shards("merge-D2-all", merge, (D, 2, MODES, 0), 32)
        out += shards("merge-C4", merge, (C, 4, [("Z", "global"), ("M", "global")], 4), 64)
        out += shards("merge-E3", merge, (E, 3, MODES, 3), 64)
        out += [("big-60000", big, (60000,))]
    return out
