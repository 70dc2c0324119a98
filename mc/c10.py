"""C10: every edit sequence up to a depth, executed on the real list and on a plain list of lists."""
from model import *

BOUNDS = {"quick": "all edit sequences of length <=4 from the empty list and <=2 (BibleRangeList) / <=3 (GroupedList) from every shape of <=4 items; "
                   "~45 edits per state (all in-range and out-of-range indices, aliased arguments, wrong types); full observation after each; "
                   "also with the list read in every way before and between edits, and every edit at every index of lists of 5-24, 40 and 130 items" '; items that are equal but distinct, unhashable and falsy; arguments given as generators, iterators, reversed views or views of the list itself; every kind of edit of lists of 1100 items',
          "thorough": "length <=5 from empty, <=3/<=4 from every shape of <=4 items, <=2 from every shape of 5-6 items"}
ASSUMPTIONS = ["insert(i) puts the item in the group of the item it pushes back (append/prepend at the ends); reverse and sort leave one group"]

ABSENT = 7
VALS = (2, 0, 1, 0, 2, 1, 0, 1)          # value introduced by the d-th edit


class Err(Exception):
    pass


def locate(m, i):
    for gi, g in enumerate(m):
        if i < len(g):
            return gi, i
        i -= len(g)
    raise AssertionError


def flat(m):
    return [x for g in m for x in g]


def conform(i, n):
    if i < 0:
        i += n
    if i < 0 or i >= n:
        raise Err("IndexError")
    return i


def m_append(m, v, new):
    if new or not m:
        m.append([v])
    else:
        m[-1].append(v)


def m_delete(m, i):
    gi, j = locate(m, i)
    v = m[gi].pop(j)
    if not m[gi]:
        del m[gi]
    return v


def apply_model(m, op):
    """Apply op to the list of lists m in place; returns the result; raises Err(class name)."""
    name, a = op[0], op[1:]
    n = sum(map(len, m))
    if name == "append":
        m_append(m, a[0], a[1])
    elif name == "prepend":
        if a[1] or not m:
            m.insert(0, [a[0]])
        else:
            m[0].insert(0, a[0])
    elif name == "insert":
        i = a[0]
        if i == n:
            m_append(m, a[1], False)
        elif i == 0:
            m[0].insert(0, a[1])
        else:
            gi, j = locate(m, conform(i, n))
            m[gi].insert(j, a[1])
    elif name in ("extend", "iadd"):
        for v in a[0]:
            m_append(m, v, False)
    elif name in ("extend_self", "iadd_self", "extend_gen_self"):
        for v in flat(m):
            m_append(m, v, False)
    elif name == "extend_rev_self":
        for v in flat(m)[::-1]:
            m_append(m, v, False)
    elif name == "extend_gen":
        for v in a[0]:
            m_append(m, v, False)
    elif name == "append_group_gen":
        if a[0]:
            m.append(list(a[0]))
    elif name == "append_group_rev_self":
        if m:
            m.append(flat(m)[::-1])
    elif name == "extend_last_group":
        for v in list(m[-1]):
            m_append(m, v, False)
    elif name == "extend_group0":
        for v in list(m[0]):
            m_append(m, v, False)
    elif name == "append_group":
        if a[0]:
            m.append(list(a[0]))
    elif name == "append_group_self":
        if m:
            m.append(flat(m))
    elif name == "append_group_last":
        m.append(list(m[-1]))
    elif name == "insert_group_at":
        gi, j = locate(m, conform(a[0], n))
        if j:
            m[gi:gi + 1] = [m[gi][:j], m[gi][j:]]
    elif name == "set":
        gi, j = locate(m, conform(a[0], n))
        m[gi][j] = a[1]
    elif name in ("del", "popi"):
        v = m_delete(m, conform(a[0], n))
        return v if name == "popi" else None
    elif name == "pop":
        return m_delete(m, conform(n - 1, n))
    elif name == "remove":
        f = flat(m)
        if a[0] not in f:
            raise Err("ValueError")
        m_delete(m, f.index(a[0]))
    elif name in ("reverse", "sort", "clear_groups"):
        f = flat(m)
        if name == "reverse":
            f.reverse()
        elif name == "sort":
            f.sort()
        m[:] = [f] if f else []
    elif name == "clear":
        m[:] = []
    elif name == "bad":
        raise Err("TypeError")
    else:
        raise AssertionError(name)


def apply_real(l, op, enc):
    name, a = op[0], op[1:]
    if name == "append":
        return l.append(enc(a[0]), new_group=True) if a[1] else l.append(enc(a[0]))
    if name == "prepend":
        return l.prepend(enc(a[0]), new_group=True) if a[1] else l.prepend(enc(a[0]))
    if name == "insert":
        return l.insert(a[0], enc(a[1]))
    if name == "extend":
        return l.extend([enc(v) for v in a[0]])
    if name == "iadd":
        x = l
        x += [enc(v) for v in a[0]]
        if x is not l:
            raise AssertionError("+= rebinds")
        return None
    if name == "extend_self":
        return l.extend(l)
    if name == "iadd_self":
        x = l
        x += x
        if x is not l:
            raise AssertionError("+= rebinds")
        return None
    if name == "extend_gen_self":
        return l.extend(x for x in l)
    if name == "extend_rev_self":
        return l.extend(reversed(l))
    if name == "extend_gen":
        return l.extend(enc(v) for v in a[0])
    if name == "append_group_gen":
        return l.append_group(enc(v) for v in a[0])
    if name == "append_group_rev_self":
        return l.append_group(reversed(l))
    if name == "extend_last_group":
        return l.extend(l.groups[-1])
    if name == "extend_group0":
        return l.extend(l.groups[0])
    if name == "append_group":
        return l.append_group(tuple(enc(v) for v in a[0]))
    if name == "append_group_self":
        return l.append_group(l)
    if name == "append_group_last":
        return l.append_group(l.groups[-1])
    if name == "insert_group_at":
        return l.insert_group_at(a[0])
    if name == "set":
        l[a[0]] = enc(a[1])
        return None
    if name == "del":
        del l[a[0]]
        return None
    if name == "popi":
        return l.pop(a[0])
    if name == "pop":
        return l.pop()
    if name == "remove":
        return l.remove(enc(a[0]))
    if name == "bad":
        return BAD[a[0]](l, enc)
    if name == "sort" and isinstance(l, BibleRangeList):
        return l.sort(regroup=False)
    return getattr(l, name)()


def _set_bad(l, enc):
    l[0] = 5


BAD = {"append": lambda l, e: l.append(5), "prepend": lambda l, e: l.prepend("x", new_group=True), "insert": lambda l, e: l.insert(0, None),
       "extend": lambda l, e: l.extend([e(0), 5]), "append_group": lambda l, e: l.append_group([e(0), e(1), "x"]),
       "set": _set_bad, "iadd": lambda l, e: l.__iadd__([e(1), None]), "remove": lambda l, e: l.remove(5)}


def ops(m, d, typed, lean=False):
    """The edits tried in model state m as d-th edit."""
    n = sum(map(len, m))
    v = VALS[d]
    w = VALS[d + 1]
    idx = sorted({-n - 1, -n, -1, 0, 1, n - 1, n, n + 1}, key=lambda i: (abs(i), i))
    if n > 4:
        idx = sorted(set(idx) | {2, n - 2, 3 - n}, key=lambda i: (abs(i), i))
    out = [("append", v, False), ("append", v, True), ("prepend", v, False), ("prepend", v, True)]
    out += [("insert", i, v) for i in idx]
    if not (lean and n == 0):
        out += [("extend", ()), ("extend", (v, w)), ("iadd", (w,)), ("append_group", ()), ("append_group", (v,)), ("append_group", (w, v))]
    if n:
        out += [("extend_self",), ("append_group_self",), ("append_group_last",), ("extend_group0",)]
    out += [("insert_group_at", i) for i in idx]
    out += [("set", i, v) for i in idx]
    out += [("del", i) for i in idx]
    out += [("popi", 0), ("pop",)]
    if n:
        f = flat(m)
        out += [("remove", x) for x in sorted(set(f))]
    out += [("remove", ABSENT), ("reverse",), ("sort",), ("clear_groups",), ("clear",)]
    if d == 0 and not lean:
        out += [("extend_gen", (v, w)), ("append_group_gen", (w, v)), ("append_group_gen", ())]
        if n:
            out += [("iadd_self",), ("extend_gen_self",), ("extend_rev_self",), ("append_group_rev_self",), ("extend_last_group",)]
    if typed:
        out += [("bad", b) for b in BAD if b != "set" or n]
    return out


def observe(l):
    """Everything a user can see, as nested plain values."""
    fwd = list(l)
    n = len(l)
    if n > 600:
        return ("too long", n)
    return (fwd, list(reversed(l)), n, [l[i] for i in range(n)], [l[i] for i in range(-n, 0)],
            [list(g) for g in l.groups], len(l.groups), [[g[j] for j in range(len(g))] for g in l.groups],
            [list(l.groups[i]) for i in range(-len(l.groups), 0)], l.to_nested_lists())


def expected(m, enc):
    f = [enc(x) for x in flat(m)]
    g = [[enc(x) for x in gr] for gr in m]
    return (f, f[::-1], len(f), f, f, g, len(g), g, g, g)


NAMES = ("forward", "backward", "length", "index", "negative index", "groups", "group count", "group index", "negative group index", "nested lists")


def check(k, l, m, enc, hist):
    k.transitions += 1
    r = call(observe, l)
    if r[0] != "ok":
        k.fail("list cannot be read", got=r[1], edits=str(hist), want=str(m))
        return False
    want = expected(m, enc)
    if r[1] != want:
        for nm, a, b in zip(NAMES, r[1], want):
            if a != b:
                k.fail("list differs by " + nm, got=a, want=b, edits=str(hist), model=str(m))
                break
        else:
            k.fail("list differs", got=r[1], want=want, edits=str(hist))
        return False
    return True


def step_both(k, l, m, op, enc, hist):
    try:
        want = ("ok", apply_model(m, op))
    except Err as e:
        want = ("exc", str(e))
    got = call(apply_real, l, op, enc)
    if got[0] != want[0] or (got[0] == "exc" and got[1] != want[1]):
        k.fail("edit outcome", got=got[:2], want=want, edits=str(hist))
        return False
    if got[0] == "ok" and op[0] in ("pop", "popi") and got[1] != enc(want[1]):
        k.fail("edit result", got=got[1], want=want[1], edits=str(hist))
        return False
    return True


def copym(m):
    return [list(g) for g in m]


def make(kind, start):
    l = GroupedList() if kind in PLAIN else BibleRangeList()
    enc = ENC[kind]
    for g in start:
        l.append_group([enc(x) for x in g])
    return l


_R = {}


def enc_range(x):
    if x not in _R:
        _R[x] = E.R(((0, 1, 1), (0, 1, 1)) if x == 0 else ((0, 1, 1), (0, 1, 2)) if x == 1 else ((0, 1, 2), (0, 1, 2)) if x == 2
                    else ((1, 1, 1), (1, 1, 2)))
    return _R[x]


class Box:
    """An item that is equal to others with the same value without being the same object, cannot be hashed, and may be false."""
    __hash__ = None

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return self.x == o.x if isinstance(o, Box) else NotImplemented

    def __lt__(self, o):
        return self.x < o.x if isinstance(o, Box) else NotImplemented

    def __le__(self, o):
        return self.x <= o.x if isinstance(o, Box) else NotImplemented

    def __gt__(self, o):
        return self.x > o.x if isinstance(o, Box) else NotImplemented

    def __ge__(self, o):
        return self.x >= o.x if isinstance(o, Box) else NotImplemented

    def __bool__(self):
        return self.x > 1

    def __repr__(self):
        return f"Box({self.x})"


def enc_fresh(x):
    """Equal ranges, but a new object each time."""
    r = enc_range(x)
    return BibleRange(start=BibleVerse(r.start), end=BibleVerse(r.end))


ENC = {"items": lambda x: x, "ranges": enc_range, "boxes": Box, "fresh": enc_fresh}
PLAIN = ("items", "boxes")


def explore(k, kind, start, depth, shard, n, read=False):
    """DFS over all edit sequences; every sequence is re-executed on a fresh list and observed at its end."""
    E.install()
    bibleref.flags = BibleFlag.NONE
    enc = ENC[kind]
    typed = kind not in PLAIN
    cnt = [0]

    def rec(hist, m, d):
        for op in ops(m, d, typed):
            if d == 0:
                cnt[0] += 1
                if cnt[0] % n != shard:
                    continue
            h = hist + [op]
            k.case = (kind, start, h)
            l = make(kind, start)
            for o in hist:
                if read:
                    observe(l)
                call(apply_real, l, o, enc)
            if read:
                observe(l)
            m2 = copym(m)
            ok = step_both(k, l, m2, op, enc, [start] + h)
            ok = check(k, l, m2, enc, [start] + h) and ok
            k.states += 1
            k.traces += 1
            if not ok:
                continue
            if d + 1 < depth and sum(map(len, m2)) <= 12:
                rec(h, m2, d + 1)
    l = make(kind, start)
    check(k, l, copym(start), enc, [start])
    rec([], copym(start), 0)
    k.sample({"kind": kind, "start": str(start), "depth": depth})


def queries(k, kind, maxitems):
    """index, count, membership, constructors, copies and equality on every shape and content."""
    E.install()
    bibleref.flags = BibleFlag.NONE
    enc = ENC[kind]
    cls = GroupedList if kind in PLAIN else BibleRangeList
    for ln in range(maxitems + 1):
        for seq in itertools.product((0, 1, 2), repeat=ln):
            for sizes in set_partitions_seq(ln):
                m = nest(list(seq), sizes)
                k.states += 1
                k.case = (kind, m)
                l = make(kind, m)
                f = list(seq)
                for v in (0, 1, 2, ABSENT):
                    k.eq(l.count(enc(v)), f.count(v), "count", list=str(m), value=v)
                    if kind in PLAIN:
                        k.eq(enc(v) in l, v in f, "in", list=str(m), value=v)
                    for lo, hi in [(None, None)] + [(a, b) for a in range(ln) for b in range(a, ln + 1)] + [(a, None) for a in range(-ln, ln)]:
                        got = call(l.index, enc(v), lo, hi)
                        try:
                            want = ("ok", f.index(v, lo or 0, ln if hi is None else hi))
                        except ValueError:
                            want = ("exc", "ValueError")
                        k.transitions += 1
                        if got[:2] != want:
                            k.fail("index", list=str(m), value=v, lo=lo, hi=hi, got=got[:2], want=want)
                for bad in (ln, ln + 1, -ln - 1):
                    k.eq(call(lambda: l[bad])[:2], ("exc", "IndexError"), "index out of range", list=str(m), index=bad)
                gn = len(m)
                for bad in (gn, gn + 1, -gn - 1):
                    k.eq(call(lambda: l.groups[bad])[:2], ("exc", "IndexError"), "group index out of range", list=str(m), index=bad)
                check(k, l, m, enc, ["queries"])
                nested = [[enc(x) for x in g] for g in m]
                check(k, cls(nested), m, enc, ["constructor from nested lists"])
                check(k, cls([tuple(g) for g in nested]), m, enc, ["constructor from nested tuples"])
                check(k, cls([enc(x) for x in f]), [f] if f else [], enc, ["constructor from items"])
                check(k, cls(enc(x) for x in f), [f] if f else [], enc, ["constructor from a generator"])
                check(k, cls(iter(nested)), m, enc, ["constructor from an iterator of lists"])
                if m: # a mixture: the items of the first group singly, the others as lists (tuples)
                    check(k, cls([enc(x) for x in m[0]] + [tuple(enc(x) for x in g) for g in m[1:]]), m, enc, ["constructor from items and tuples"])
                if kind not in PLAIN:
                    check(k, cls(l), m, enc, ["copy"])
                    if ln >= 2:
                        check(k, cls(*[enc(x) for x in f]), [f], enc, ["constructor from arguments"])
                else:
                    check(k, cls(l), [f] if f else [], enc, ["constructor from a list"])
                k.traces += 1


def groupings(n):
    """Several groupings of n items: all in one, one each, uneven ones, a boundary at every place."""
    out = {(n,), (1,) * n, (2,) * (n // 2) + (1,) * (n % 2), (5,) * (n // 5) + ((n % 5,) if n % 5 else ())}
    out |= {(a, n - a) for a in (range(1, n) if n <= 12 else (1, n // 2, n - 1))}
    if n >= 5:
        out |= {(1, n - 2, 1), (2, 1, n - 3), (n - 4, 1, 1, 2)}
    return sorted(out)


def every_edit(m, d):
    """Every edit at every index, in range or just outside."""
    n = sum(map(len, m))
    v, w = VALS[d], VALS[d + 1]
    rng = list(range(-n - 1, n + 2))
    out = [("append", v, x) for x in (False, True)] + [("prepend", v, x) for x in (False, True)]
    for name in ("insert", "set"):
        out += [(name, i, v) for i in rng]
    for name in ("insert_group_at", "del", "popi"):
        out += [(name, i) for i in rng]
    out += [("extend", (v, w)), ("append_group", (w, v)), ("extend_self",), ("append_group_self",), ("append_group_last",), ("extend_group0",), ("pop",)]
    out += [("remove", x) for x in sorted(set(flat(m)))] + [("remove", ABSENT), ("reverse",), ("sort",), ("clear_groups",), ("clear",)]
    return out


def long_lists(k, kind, lo, hi, shard, n):
    """Every edit at every index of lists of lo..hi items in many groupings, the list being read beforehand."""
    E.install()
    bibleref.flags = BibleFlag.NONE
    enc = ENC[kind]
    i = 0
    for ln in range(lo, hi + 1):
        seq = [(j * 5 + j // 7) % 3 for j in range(ln)] if kind not in PLAIN else [(j * 5) % ln for j in range(ln)]
        for sizes in groupings(ln):
            i += 1
            if i % n != shard:
                continue
            start = nest(seq, sizes)
            for op in every_edit(start, 0):
                l = make(kind, start)
                m = copym(start)
                if i % 2:
                    observe(l)
                k.case = (kind, start, op)
                if step_both(k, l, m, op, enc, [start, op]):
                    check(k, l, m, enc, [start, op])
                k.states += 1
                k.traces += 1
    k.sample({"kind": kind, "start": str(start)[:200]})


def readers(n, g):
    """Single ways of reading: (name, function of the list, function of the model)."""
    out = [("len", len, lambda m: len(flat(m))), ("iterate", list, flat), ("reversed", lambda l: list(reversed(l)), lambda m: flat(m)[::-1]),
           ("groups", lambda l: [list(x) for x in l.groups], lambda m: copym(m)), ("group count", lambda l: len(l.groups), len),
           ("nested", lambda l: l.to_nested_lists(), copym)]
    for i in range(-n, n):
        out.append((f"[{i}]", lambda l, i=i: l[i], lambda m, i=i: flat(m)[i]))
    for i in range(-g, g):
        out.append((f"groups[{i}]", lambda l, i=i: list(l.groups[i]), lambda m, i=i: list(m[i])))
    for v in (0, 1, 2):
        out.append((f"index({v})", lambda l, v=v: l.index(v) if l.count(v) else None, lambda m, v=v: flat(m).index(v) if v in flat(m) else None))
    return out


def read_edit_read(k, maxn, shard, n):
    """Read the list in one way, edit it, read it in one way: all combinations (nothing remembered from the first reading may survive)."""
    cnt = 0
    for start in shapes(1, maxn):
        for op in ops(start, 0, False):
            cnt += 1
            if cnt % n != shard:
                continue
            m = copym(start)
            try:
                apply_model(m, op)
            except Err:
                pass
            if len(flat(m)) > 8:
                continue
            for na, a, _ in readers(sum(map(len, start)), len(start)):
                for nb, b, wb in readers(sum(map(len, m)), len(m)):
                    k.case = (start, na, op, nb)
                    l = make("items", start)
                    a(l)
                    call(apply_real, l, op, ENC["items"])
                    got, want = call(b, l), wb(m)
                    k.states += 1
                    k.transitions += 1
                    if got[:2] != ("ok", want):
                        k.fail("reading after an edit", start=str(start), first_read=na, edit=str(op), read=nb, got=got[1], want=want)
    k.traces += k.states


def live_iteration(k, maxn):
    """Replacing items while iterating, as far as a plain list allows it, and several iterators at once."""
    for start in shapes(1, maxn):
        l = make("items", start)
        f = flat(start)
        k.states += 1
        k.case = start
        pairs = [(a, b) for a in l for b in l]
        k.eq(pairs, [(a, b) for a in f for b in f], "nested iteration", start=str(start))
        k.eq([(a, b) for a in l for b in reversed(l)], [(a, b) for a in f for b in f[::-1]], "nested iteration", start=str(start))
        k.eq([(list(x), list(y)) for x in l.groups for y in l.groups], [(x, y) for x in start for y in start], "nested iteration of groups", start=str(start))
        its = [iter(l) for _ in range(3)]
        got = []
        for step in range(len(f)):
            got.append([next(it) for it in its[:1 + step % 3]])
        k.transitions += 1
        pos = [0, 0, 0]
        want = []
        for step in range(len(f)):
            row = []
            for j in range(1 + step % 3):
                row.append(f[pos[j]])
                pos[j] += 1
            want.append(row)
        k.eq(got, want, "interleaved iterators", start=str(start))
        for i, x in enumerate(l):
            l[i] = x + 1
        k.eq(list(l), [x + 1 for x in f], "replacing while iterating", start=str(start))
        k.traces += 1


def shapes(lo, hi):
    """Groupings of lo..hi items, with contents that distinguish positions and contain duplicates."""
    out = []
    for ln in range(lo, hi + 1):
        for sizes in set_partitions_seq(ln):
            out.append(nest([(2, 1, 0, 1, 2, 0)[i] for i in range(ln)], sizes))
    return out


def jobs(tier):
    out = []
    out += shards("items-empty-4", explore, ("items", [], 4), 24)
    out += shards("ranges-empty-3", explore, ("ranges", [], 3), 8)
    for s in shapes(1, 3):
        out += shards(f"items-{s}-3", explore, ("items", s, 3), 3)
    for s in shapes(1, 4):
        out.append((f"ranges-{s}-2", explore, ("ranges", s, 2, 0, 1)))
    for s in shapes(4, 4):
        out.append((f"items-{s}-2", explore, ("items", s, 2, 0, 1)))
    for s in shapes(0, 4):
        out.append((f"items-read-{s}-2", explore, ("items", s, 2, 0, 1, True)))
    out += shards("long-items", long_lists, ("items", 5, 24), 16)
    out += shards("long-items-40", long_lists, ("items", 40, 40), 4) + shards("long-items-130", long_lists, ("items", 130, 130), 8)
    out += shards("long-ranges", long_lists, ("ranges", 5, 14), 8)
    out += shards("read-edit-read", read_edit_read, (4,), 16)
    out += [("live-iteration", live_iteration, (5,))]
    out += [("queries-items", queries, ("items", 4)), ("queries-ranges", queries, ("ranges", 3))]
    out += [("queries-boxes", queries, ("boxes", 4)), ("queries-fresh", queries, ("fresh", 3))]
    out += shards("boxes-empty-3", explore, ("boxes", [], 3), 2) + shards("long-boxes", long_lists, ("boxes", 5, 9), 2)
    for s in shapes(1, 4):
        out.append((f"boxes-{s}-2", explore, ("boxes", s, 2, 0, 1)))
    for s in shapes(1, 3):
        out.append((f"fresh-{s}-2", explore, ("fresh", s, 2, 0, 1)))
    import huge
    out += [(f"huge-{s}", huge.edits, (s,)) for s in huge.SIZES]
    if tier == "thorough":
        out += shards("items-empty-5", explore, ("items", [], 5), 24)
        out += shards("ranges-empty-4", explore, ("ranges", [], 4), 24)
        for s in shapes(1, 4):
            out += shards(f"ranges-{s}-3", explore, ("ranges", s, 3), 4)
        for s in shapes(4, 4):
            out += shards(f"items-{s}-3", explore, ("items", s, 3), 8)
        for s in shapes(2, 3):
            out += shards(f"items-{s}-4", explore, ("items", s, 4), 24)
        for s in shapes(5, 6):
            out.append((f"items-{s}-2", explore, ("items", s, 2, 0, 1)))
    return out
