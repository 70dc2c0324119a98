"""C23: comparison, hashing, immutability and copies."""
import copy, pickle
from model import *

BOUNDS = {"quick": "all pairs of verses of small Bibles A-D and of chapter-edge verses of the real Bible (neighbours in all combinations); all pairs of ranges of B, C, D; "
                   "all pairs of lists of <= 2 ranges in every grouping (C) , of <= 3 over 3 ranges and of <= 4 over 2; lists of up to 40 ranges against every list that differs in one item or boundary; 12 kinds of foreign objects; every edit of a copy or its original" '; hashes of verses and ranges through every option, data change and use; alternating data sets',
          "thorough": "as quick plus all pairs of ranges of A, all pairs of lists of <= 2 ranges of B, all chapter-edge verse pairs of the real Bible"}
ASSUMPTIONS = ["copy.deepcopy and pickle recurse over the items of a list, so they are checked for lists of up to 40 ranges (Python's recursion limit refuses very long lists)"]


class Odd:
    pass


FOREIGN = [None, 0, 1, "Gen 1:1", "", (), (1, 2), [], [1], {}, Odd(), 1.5, Odd, b"x", {1}]


def total(k, a, b, c, **d):
    """c: model comparison result (-1, 0, 1)."""
    k.transitions += 1
    got = (a < b, a <= b, a == b, a != b, a >= b, a > b)
    want = (c < 0, c <= 0, c == 0, c != 0, c >= 0, c > 0)
    if got != want or any(type(x) is not bool for x in got):
        k.fail("comparison", got=got, want=want, **d)
    if c == 0 and hash(a) != hash(b):
        k.fail("equal references hash differently", **d)


def cmp(a, b):
    return (a > b) - (a < b)


def frozen(k, x, attrs, model, want, **d):
    for a, new in attrs:
        for f in (lambda: setattr(x, a, new), lambda: delattr(x, a)):
            k.transitions += 1
            try:
                f()
            except Exception:
                pass
            else:
                k.fail("a reference can be modified", attr=a, **d)
            if model(x) != want:
                k.fail("a reference was modified", attr=a, **d)
                return


def foreign(k, x, others, **d):
    for f in others:
        k.transitions += 1
        for a, b in ((x, f), (f, x)):
            r = call(lambda: (a == b, a != b))
            if r != ("ok", (False, True)):
                k.fail("equality with another kind of object", other=common.short(f, 60), got=r, **d)


def copies(k, x, model, want, **d):
    for name, f in (("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", lambda o: pickle.loads(pickle.dumps(o))), ("constructor", type(x))):
        k.transitions += 1
        r = call(f, x)
        if r[0] != "ok" or model(r[1]) != want or not (r[1] == x) or hash(r[1]) != hash(x):
            k.fail("copy differs", how=name, got=r[:2], **d)


def verses(k, bib, shard, n):
    bib.install()
    for opt in OPTS:
        bibleref.flags = FLAGS[opt]
        u = bib.uni("Z")
        vs = [bib.V(t) for t in u]
        ws = [bib.V(t) for t in u]
        for i, t in enumerate(u):
            if i % n != shard:
                continue
            k.states += 1
            k.case = (bib.name, t, opt)
            for s, w in zip(u, ws):
                total(k, vs[i], w, cmp(t, s), bible=bib.name, refs=bib.s([t, s]), options=opt)
            d = dict(bible=bib.name, ref=bib.s(t))
            frozen(k, vs[i], [("book", BibleBook.Rev), ("chap_num", 99), ("verse_num", 99)], bib.tv, t, **d)
            foreign(k, vs[i], FOREIGN + [bib.R((t, t)), bib.L([[(t, t)]]), t, BibleBook.Gen], **d)
            copies(k, vs[i], bib.tv, t, **d)
            k.traces += 1
        if shard == 0:
            k.eq([bib.tv(v) for v in sorted(ws[::-1])], u, "sorted", bible=bib.name)
            k.eq(len(set(vs) | set(ws)), len(u), "set of equal verses", bible=bib.name)
            k.eq((bib.tv(max(vs)), bib.tv(min(vs))), (u[-1], u[0]), "max and min")
            k.eq([{v: i for i, v in enumerate(vs)}[w] for w in ws], list(range(len(u))), "dictionary lookup")


def real_verses(k, shard, n):
    bib = REAL
    edges = []
    for b in range(bib.n):
        for c in sorted({1, 2, bib.nch(b)} if k.tier == "quick" else range(1, bib.nch(b) + 1)):
            if c <= bib.nch(b):
                edges += sorted({bib.first(b, c, "Z"), (b, c, 1), bib.last(b, c)})
    vs = [bib.V(t) for t in edges]
    for i in range(shard, len(edges), n):
        k.states += 1
        t = edges[i]
        w = bib.V(t)
        for s, v in zip(edges, vs):
            total(k, w, v, cmp(t, s), refs=bib.s([t, s]))
    for b in range(shard, bib.n, n):
        e = bib.enum[b]
        for b2 in range(bib.n):
            f = bib.enum[b2]
            k.eq((e < f, e <= f, e == f, e != f, e >= f, e > f), (b < b2, b <= b2, b == b2, b != b2, b >= b2, b > b2), "book comparison", books=(e.name, f.name))
        foreign(k, e, FOREIGN + [e.name, e.value, b, e.first_verse(), e.range()], book=e.name)
        k.eq((copy.deepcopy(e) is e, pickle.loads(pickle.dumps(e)) is e), (True, True), "copy of a book", book=e.name)
    k.traces += 1


def ranges(k, bib, shard, n):
    bib.install()
    for opt in ("", "MZ"):
        bibleref.flags = FLAGS[opt]
        rs = bib.ranges("Z")
        xs = [bib.R(r) for r in rs]
        ys = [bib.R(r) for r in rs]
        for i in range(shard, len(rs), n):
            k.states += 1
            r = rs[i]
            k.case = (bib.name, r, opt)
            for s, y in zip(rs, ys):
                total(k, xs[i], y, cmp(r, s), bible=bib.name, refs=bib.s([r, s]), options=opt)
            d = dict(bible=bib.name, ref=bib.s(r))
            frozen(k, xs[i], [("start", bib.V(bib.uni("")[-1])), ("end", bib.V(bib.uni("")[0]))], bib.tr, r, **d)
            foreign(k, xs[i], FOREIGN + [bib.V(r[0]), bib.L([[r]]), r, [bib.R(r)], BibleBook.Gen], **d)
            copies(k, xs[i], bib.tr, r, **d)
            k.traces += 1
        if shard == 0:
            k.eq([bib.tr(v) for v in sorted(ys[::-1])], sorted(rs), "sorted", bible=bib.name)
            k.eq(len(set(xs) | set(ys)), len(rs), "set of equal ranges", bible=bib.name)


def all_lists(rs, mx):
    out = [[]]
    for m in range(1, mx + 1):
        for seq in itertools.product(rs, repeat=m):
            for sz in set_partitions_seq(m):
                out.append(nest(seq, sz))
    return out


def flat(l):
    return [r for g in l for r in g]


def list_pairs(k, bib, rs, mx, shard, n):
    bib.install()
    bibleref.flags = BibleFlag.NONE
    ls = all_lists(rs, mx)
    ys = [bib.L(l) for l in ls]
    xs = [bib.L(l) for l in ls]
    for i in range(shard, len(ls), n):
        k.states += 1
        l, x = ls[i], xs[i]
        k.case = l
        fl = flat(l)
        for m, y in zip(ls, ys):
            e = l == m
            k.transitions += 1
            got = (x == y, x != y, x.equals(y), x.equals(y, compare_groups=False))
            if got != (e, not e, e, fl == flat(m)):
                k.fail("list equality", lists=bib.s([l, m]), got=got, want=(e, not e, e, fl == flat(m)))
        foreign(k, x, FOREIGN + [[bib.R(r) for r in fl], [list(g) for g in x.groups], *([bib.R(fl[0]), bib.V(fl[0][0])] if fl else [])], list=bib.s(l))
        k.eq(x == x, True, "list equals itself", list=bib.s(l))
        k.eq((x.equals([bib.R(r) for r in fl], compare_groups=False), x.equals([bib.R(r) for r in fl])), (True, False), "comparison with a plain list", list=bib.s(l))
        k.traces += 1
    k.sample(f"{len(ls)} lists compared with each other")


def edits(bib, extra):
    r = bib.R(extra)
    yield "append", lambda x: x.append(r)
    yield "append new group", lambda x: x.append(r, new_group=True)
    yield "prepend", lambda x: x.prepend(r)
    yield "prepend new group", lambda x: x.prepend(r, new_group=True)
    yield "insert", lambda x: x.insert(1, r)
    yield "extend", lambda x: x.extend([r, r])
    yield "append_group", lambda x: x.append_group([r, r])
    yield "set", lambda x: x.__setitem__(0, r)
    yield "del", lambda x: x.__delitem__(0)
    yield "pop", lambda x: x.pop()
    yield "clear", lambda x: x.clear()
    yield "clear_groups", lambda x: x.clear_groups()
    yield "reverse", lambda x: x.reverse()
    yield "sort", lambda x: x.sort()
    yield "merge", lambda x: x.merge()
    yield "regroup", lambda x: x.regroup()
    yield "verse_1_to_0", lambda x: x.verse_1_to_0()
    yield "verse_0_to_1", lambda x: x.verse_0_to_1()
    yield "|=", lambda x: x.union_update(r)
    yield "&=", lambda x: x.intersection_update(r)
    yield "-=", lambda x: x.difference_update(r)
    yield "^=", lambda x: x.sym_difference_update(r)
    yield "view append", lambda x: x.groups[0].append(r)
    yield "view set", lambda x: x.groups[-1].__setitem__(0, r)
    yield "view pop", lambda x: x.groups[0].pop()


HOW = [("BibleRangeList(list)", lambda x: BibleRangeList(x), True), ("from groups", lambda x: BibleRangeList([list(g) for g in x.groups]), True),
       ("from nested lists", lambda x: BibleRangeList(x.to_nested_lists()), True), ("from ranges", lambda x: BibleRangeList(list(x)), False),
       ("from arguments", lambda x: BibleRangeList(*x), False), ("GroupedList", lambda x: GroupedList(list(x)), False),
       ("copy.copy", copy.copy, True), ("copy.deepcopy", copy.deepcopy, True), ("pickle", lambda x: pickle.loads(pickle.dumps(x)), True)]


def independent(k, bib, rs, mx, shard, n):
    bib.install()
    bibleref.flags = BibleFlag.NONE
    extra = rs[0]
    for i, l in enumerate(all_lists(rs, mx)):
        if i % n != shard or not l:
            continue
        k.states += 1
        for how, f, same in HOW:
            if how == "from arguments" and len(flat(l)) < 2:
                continue
            want = l if same else [flat(l)]
            c = f(bib.L(l))
            k.eq(bib.tn(c), want, "copy", how=how, list=bib.s(l))
            if same:
                k.eq((bib.L(l) == c, c == bib.L(l)), (True, True), "copy equals", how=how, list=bib.s(l))
            if how == "GroupedList":
                continue
            for name, e in edits(bib, extra):
                k.case = (how, l, name)
                for which in (0, 1):
                    x = bib.L(l)
                    c = f(x)
                    views = list((x, c)[1 - which].groups)
                    vw = [[bib.tr(r) for r in v] for v in views]
                    r = call(e, (x, c)[which])
                    fresh = bib.L((l, want)[which])
                    r2 = call(e, fresh)
                    if r[0] != r2[0] or (r[0] == "exc" and r[1] != r2[1]) or bib.tn((x, c)[which]) != bib.tn(fresh):
                        k.fail("an edited copy or original differs from a list edited alike", how=how, list=bib.s(l), edit=name, edited=("original", "copy")[which],
                               got=bib.tn((x, c)[which]), want=bib.tn(fresh))
                    other, w = ((c, want), (x, l))[which]
                    k.transitions += 1
                    ok = bib.tn(other) == w and bib.tl(reversed(other)) == flat(w)[::-1] and len(other) == len(flat(w))
                    if not ok or call(lambda: [[bib.tr(r) for r in v] for v in views]) != ("ok", vw):
                        k.fail("editing a copy or its original affects the other", how=how, list=bib.s(l), edit=name, edited=("original", "copy")[which], got=bib.tn(other))
        k.traces += 1


def stable(k, bibs):
    """A value stays the same value: whatever the options and the data become, its hash does not change and it is still found in sets and dicts."""
    bibs[0].install()
    bibleref.flags = BibleFlag.ALL
    held = []
    for bib in bibs:
        bib.install()
        held += [(bib.V(t), bib.s(t)) for t in bib.uni("Z")] + [(bib.R(r), bib.s(r)) for r in bib.ranges("Z")]
    hashes = [hash(x) for x, _ in held]
    sets = {x for x, _ in held}
    n = len(sets)
    for bib in bibs + bibs[:1]:
        bib.install()
        for opt in OPTS:
            bibleref.flags = FLAGS[opt]
            for (x, s), h in zip(held, hashes):
                k.states += 1
                k.case = (bib.name, opt, s)
                k.eq(hash(x), h, "the hash of a reference changed", ref=s, data=bib.name, options=opt)
                k.eq(x in sets, True, "a reference is not found in a set that holds it", ref=s, data=bib.name, options=opt)
                k.eq(x == copy.copy(x), True, "a copy differs", ref=s, data=bib.name, options=opt)
            k.eq(len({*sets, *(x for x, _ in held)}), n, "equal references held twice", data=bib.name, options=opt)
            k.traces += 1


def long_lists(k, bib, sizes, shard, n):
    """Longer lists: every grouping of up to 7 ranges copied; lists of up to 40 ranges copied and compared with every list that differs in one item,
    one group boundary, or by one item more or less."""
    bib.install()
    bibleref.flags = BibleFlag.NONE
    rs = bib.ranges("Z")
    i = 0
    for size in sizes:
        seqs = [[rs[j % len(rs)] for j in range(size)], [rs[0]] * size, [rs[(j // 2) % 2] for j in range(size)]]
        parts = set_partitions_seq(size) if size <= 7 else [(size,), (1,) * size, (2,) * (size // 2) + (1,) * (size % 2), (size // 2, size - size // 2), (1,) * (size - 5) + (2, 3)]
        for seq in seqs:
            for sz in parts:
                i += 1
                if i % n != shard:
                    continue
                l = nest(seq, sz)
                x = bib.L(l)
                k.states += 1
                k.case = l
                for how, f, same in HOW:
                    c = f(x)
                    k.eq(bib.tn(c), l if same else [seq], "copy", how=how, list=bib.s(l))
                    if same:
                        k.eq((x == c, c == x, x != c), (True, True, False), "copy equals", how=how, list=bib.s(l))
                near = []
                for p in range(size):
                    other = list(seq)
                    other[p] = rs[(rs.index(seq[p]) + 1) % len(rs)]
                    near.append((nest(other, sz), False))
                cut = set(itertools.accumulate(sz))
                for p in range(1, size):
                    c2 = sorted(cut ^ {p})
                    near.append((nest(seq, [b - a for a, b in zip([0] + c2, c2)]), True))
                near.append((l[:-1] + [l[-1] + [rs[0]]], False))
                near.append((l + [[rs[0]]], False))
                near.append((l[1:], False))
                if size > 1:
                    near.append(([g[:-1] if g is l[-1] else g for g in l if not (g is l[-1] and len(g) == 1)], False))
                for m, same_items in near:
                    y = bib.L(m)
                    got = (x == y, y == x, x != y, x.equals(y, compare_groups=False), y.equals(x, compare_groups=False))
                    k.transitions += 1
                    if got != (False, False, True, same_items, same_items):
                        k.fail("equality of two lists that differ in one place", lists=bib.s([l, m]), got=got)
                k.traces += 1
    k.sample(f"sizes {sizes}")


def jobs(tier):
    out = []
    for b in (A, B, C, D):
        out += shards(f"verses-{b.name}", verses, (b,), 1)
    out += shards("real", real_verses, (), 8) + [("stable", stable, ([E, E2, E3],)), ("stable-A", stable, ([A, D, C, B],))]
    out += [("revisit-verses", revisit, (verses, 0, 1)), ("revisit-ranges", revisit, (ranges, 0, 1))]
    for b in (B, C, D) + ((A,) if tier == "thorough" else ()):
        out += shards(f"ranges-{b.name}", ranges, (b,), 4)
    rc = C.ranges("Z")
    out += shards("lists2-C", list_pairs, (C, rc, 2), 8)
    out += shards("lists3-C", list_pairs, (C, [rc[0], rc[4], rc[-1]], 3), 2)
    out += shards("copies-C", independent, (C, [rc[0], rc[2], rc[-1], rc[-4]], 3), 8)
    out += shards("lists5-C", list_pairs, (C, [rc[0], rc[4]], 4), 8)
    out += shards("long", long_lists, (C, (4, 5, 6, 7, 12, 25, 40)), 8)
    if tier == "thorough":
        out += shards("lists2-B", list_pairs, (B, B.ranges("Z"), 2), 32)
        out += shards("lists4-C", list_pairs, (C, [rc[0], rc[4]], 5), 16)
        out += shards("copies4-C", independent, (C, [rc[0], rc[2], rc[-1]], 4), 16)
    return out
