"""C11: group views held across every sequence of edits."""
from model import *
from c10 import locate, conform, enc_range, Err

BOUNDS = {"quick": "every shape of <=4 items, views taken on every group before and after every edit, all sequences of <=3 "
                   "list and view edits, every view used in every way at the end of every sequence; merge/set updates on range lists; every single edit at every index of lists of 5-16 and 40 items in many groupings" '; views read in every way before each edit; views of lists of 1100 items',
          "thorough": "every shape of 5 items with depth 3, of <=3 items with depth 4, range lists of <=4 with depth 3"}
ASSUMPTIONS = ["sorting, reversing and assigning to an index keep the items' places (slots); a view follows the slot it was taken on",
               "after merge and in-place set operations a view must refuse or show one of the current groups"]


class Slot:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def flat(m):
    return [s for g in m for s in g]


def model_apply(m, views, op):
    name, a = op[0], op[1:]
    n = len(flat(m))
    if name == "append":
        s = Slot(a[0])
        if a[1] or not m:
            m.append([s])
        else:
            m[-1].append(s)
    elif name == "prepend":
        s = Slot(a[0])
        if a[1] or not m:
            m.insert(0, [s])
        else:
            m[0].insert(0, s)
    elif name == "insert":
        gi, j = locate(m, a[0])
        m[gi].insert(j, Slot(a[1]))
    elif name == "append_group":
        m.append([Slot(v) for v in a[0]])
    elif name == "insert_group_at":
        gi, j = locate(m, a[0])
        if j:
            m[gi:gi + 1] = [m[gi][:j], m[gi][j:]]
    elif name == "set":
        flat(m)[a[0]].v = a[1]
    elif name in ("del", "vdel", "remove"):
        if name == "del":
            gi, j = locate(m, a[0])
        elif name == "remove":
            gi, j = locate(m, [s.v for s in flat(m)].index(a[0]))
        else:
            gi, j = head_group(m, views[a[0]]), a[1]
        m[gi].pop(j)
        if not m[gi]:
            del m[gi]
    elif name == "vset":
        m[head_group(m, views[a[0]])][a[1]].v = a[2]
    elif name in ("reverse", "sort", "clear_groups"):
        f = flat(m)
        if name == "reverse":
            f.reverse()
        elif name == "sort":
            f.sort(key=lambda s: s.v)
        m[:] = [f] if f else []
    elif name == "clear":
        m[:] = []
    else:
        raise AssertionError(name)


def real_apply(l, views, op, enc):
    name, a = op[0], op[1:]
    if name in ("append", "prepend"):
        getattr(l, name)(enc(a[0]), new_group=a[1])
    elif name == "insert":
        l.insert(a[0], enc(a[1]))
    elif name == "append_group":
        l.append_group([enc(v) for v in a[0]])
    elif name == "insert_group_at":
        l.insert_group_at(a[0])
    elif name == "set":
        l[a[0]] = enc(a[1])
    elif name == "del":
        del l[a[0]]
    elif name == "remove":
        l.remove(enc(a[0]))
    elif name == "vdel":
        del views[a[0]][a[1]]
    elif name == "vset":
        views[a[0]][a[1]] = enc(a[2])
    elif name == "sort" and isinstance(l, BibleRangeList):
        l.sort(regroup=False)
    else:
        getattr(l, name)()


def head_group(m, slot):
    for i, g in enumerate(m):
        if g[0] is slot:
            return i
    return None


def ops(m, views, d):
    n = len(flat(m))
    v = (0, 2, 1, 0)[d]
    out = [("append", v, True), ("append", v, False), ("prepend", v, False), ("prepend", v, True)]
    if n:
        out += [("insert", i, v) for i in range(1, n)]
        out += [("insert_group_at", i) for i in range(1, n)]
        out += [("set", i, v) for i in sorted({0, n - 1})]
        out += [("del", i) for i in range(n)]
        for i, s in enumerate(views):
            g = head_group(m, s)
            if g is not None and i == max(j for j, t in enumerate(views) if t is s):
                out += [("vdel", i, j) for j in range(len(m[g]))]
                out += [("vset", i, len(m[g]) - 1, v)]
        out += [("remove", flat(m)[-1].v)]
    out += [("append_group", (v, 1)), ("reverse",), ("sort",), ("clear_groups",), ("clear",)]
    return out


def read(l):
    return [list(l), list(reversed(l)), [list(g) for g in l.groups], len(l)]


def want_read(m, enc):
    f = [enc(s.v) for s in flat(m)]
    return [f, f[::-1], [[enc(s.v) for s in g] for g in m], len(f)]


def use(view):
    return (list(view), len(view), [view[j] for j in range(len(view))])


def refuse(k, view, enc, hist, i):
    def s(): view[0] = enc(1)
    def de(): del view[0]
    for name, f in (("iterate", lambda: list(view)), ("len", lambda: len(view)), ("get", lambda: view[0]), ("set", s), ("delete", de),
                    ("str", lambda: str(view)), ("get past the first", lambda: view[1])):
        r = call(f)
        k.transitions += 1
        if r[0] != "exc" or not isinstance(r[2], GroupViewError):
            k.fail("a view whose head no longer heads a group was used: " + name, got=r[:2], edits=str(hist), view=i)


def checkall(k, l, views, m, mviews, enc, hist):
    k.transitions += 1
    r = call(read, l)
    w = want_read(m, enc)
    if r[0] != "ok" or r[1] != w:
        k.fail("list", got=r[1], want=w, edits=str(hist))
        return False
    gv, gw = build.gv, w[2]
    r = call(lambda: ([list(g) for g in gv], len(gv), [list(gv[i]) for i in range(-len(gw), len(gw))]))
    k.transitions += 1
    if r[:2] != ("ok", (gw, len(gw), gw + gw)):
        k.fail("the groups collection taken before the edits is out of step", got=r[1], want=gw, edits=str(hist))
    for i, (view, slot) in enumerate(zip(views, mviews)):
        g = head_group(m, slot)
        if g is None:
            refuse(k, view, enc, hist, i)
        else:
            r = call(use, view)
            items = [enc(s.v) for s in m[g]]
            k.transitions += 1
            if r[0] != "ok" or r[1] != (items, len(items), items):
                k.fail("a live view does not show its group", got=r[1], want=items, edits=str(hist), view=i)
            for bad in (-1, len(items), len(items) + 1):
                b = call(lambda: view[bad])
                b2 = call(view.__delitem__, bad)
                b3 = call(view.__setitem__, bad, enc(1))
                k.transitions += 3
                for x in (b, b2, b3):
                    if x[:2] != ("exc", "IndexError"):
                        k.fail("view index out of range", index=bad, got=x[:2], edits=str(hist), view=i)
    r = call(read, l)
    if r[0] != "ok" or r[1] != w:
        k.fail("list changed by refused uses of views", got=r[1], want=w, edits=str(hist))
        return False
    return True


def build(kind, start, hist, reading=False):
    """Fresh list with the history applied; views taken on every group before and after every edit."""
    enc = ENC[kind]
    l = GroupedList() if kind == "items" else BibleRangeList()
    m = []
    for g in start:
        l.append_group([enc(x) for x in g])
        m.append([Slot(x) for x in g])
    build.gv = l.groups             # taken once: must follow the list
    views, mviews = list(l.groups), [g[0] for g in m]
    for op in hist:
        if reading:                 # every view (and the list) is read in every way before every edit
            for v in views:
                call(use, v)
                call(str, v)
            read(l)
            [list(g) for g in build.gv], len(build.gv)
        real_apply(l, views, op, enc)
        model_apply(m, mviews, op)
        views += list(l.groups)
        mviews += [g[0] for g in m]
    return l, views, m, mviews


ENC = {"items": lambda x: x, "ranges": enc_range}


def explore(k, kind, start, depth, shard, n, reading=False):
    E.install()
    bibleref.flags = BibleFlag.NONE
    enc = ENC[kind]
    cnt = [0]

    def rec(hist, d):
        try:
            l, views, m, mviews = build(kind, start, hist, reading)
        except Exception as e:
            k.fail("edit failed", got=type(e).__name__, edits=str([start] + hist))
            return
        k.states += 1
        k.traces += 1
        if d:
            views, mviews = views[:], mviews[:]
        if not checkall(k, l, views, m, mviews, enc, [start] + hist):
            return
        if d < depth:
            for op in ops(m, mviews, d):
                if d == 0:
                    cnt[0] += 1
                    if cnt[0] % n != shard:
                        continue
                k.case = (kind, start, hist + [op])
                rec(hist + [op], d + 1)
    rec([], 0)
    k.sample({"kind": kind, "start": str(start), "depth": depth})


def long_lists(k, lo, hi, shard, n):
    """Every list edit and every edit through every view, at every index, on long lists with views held on every group."""
    from c10 import groupings
    cnt = 0
    for ln in range(lo, hi + 1):
        for sizes in groupings(ln):
            start = nest([(j * 5) % 7 for j in range(ln)], sizes)
            k.case = start
            _, _, m, mviews = build("items", start, [])
            menu = ops(m, mviews, 0) + [("vset", i, j, 9) for i, g in enumerate(m) for j in range(len(g))] + [("set", j, 9) for j in range(ln)]
            for op in menu:
                cnt += 1
                if cnt % n != shard:
                    continue
                k.case = (start, op)
                try:
                    l, views, m, mviews = build("items", start, [op])
                except Exception as e:
                    k.fail("edit failed", got=type(e).__name__, edits=str([start, op]))
                    continue
                k.states += 1
                k.traces += 1
                checkall(k, l, views, m, mviews, ENC["items"], [start, op])
    k.sample({"start": str(start)[:200]})


def set_updates(k, bib, opt):
    """merge, regroup and in-place set operations on lists with views held."""
    bib.install()
    bibleref.flags = FLAGS[opt]
    rs = bib.ranges(opt)
    muts = {"merge": lambda l, r: l.merge(), "regroup": lambda l, r: l.regroup(), "sort": lambda l, r: l.sort(),
            "|=": lambda l, r: l.__ior__(r), "&=": lambda l, r: l.__iand__(r), "-=": lambda l, r: l.__isub__(r), "^=": lambda l, r: l.__ixor__(r)}
    for ln in (1, 2):
        for seq in itertools.product(rs, repeat=ln):
            for sizes in set_partitions_seq(ln):
                for name, f in muts.items():
                    for r in (rs[0], rs[-1], rs[len(rs) // 2]) if name[-1] == "=" else rs[:1]:
                        k.states += 1
                        l = bib.L(nest(list(seq), sizes))
                        views = list(l.groups)
                        f(l, bib.R(r))
                        d = dict(bible=bib.name, list=bib.s(nest(list(seq), sizes)), op=name, operand=bib.s(r), opt=opt)
                        k.case = d
                        groups = bib.tn(l)
                        for v in views:
                            k.transitions += 1
                            got = call(lambda: [bib.tr(x) for x in v])
                            if got[0] == "ok":
                                if got[1] not in groups:
                                    k.fail("a view shows something that is no group", got=bib.s(got[1]), groups=bib.s(groups), **d)
                                else:
                                    before = [x for g in groups for x in g]
                                    gi = groups.index(got[1])
                                    del v[0]
                                    want = [list(g) for g in groups]
                                    now = bib.tn(l)
                                    ok = any(now == [list(g) for g in groups[:i]] + ([list(groups[i][1:])] if groups[i][1:] else []) +
                                             [list(g) for g in groups[i + 1:]] for i in range(len(groups)) if groups[i] == got[1])
                                    if not ok or bib.tl(reversed(l)) != [x for g in now for x in g][::-1] or len(l) != len(before) - 1:
                                        k.fail("deleting through a view", got=bib.s(now), groups=bib.s(groups), **d)
                                    groups = now
                            elif not isinstance(got[2], GroupViewError):
                                k.fail("a stale view fails with another error", got=got[1], **d)
                            else:
                                for g in (lambda: v.__delitem__(0), lambda: v.__setitem__(0, bib.R(r)), lambda: len(v)):
                                    x = call(g)
                                    if x[0] == "ok" or not isinstance(x[2], GroupViewError):
                                        k.fail("a stale view was used", got=x[:2], **d)
                                if bib.tn(l) != groups:
                                    k.fail("a stale view changed the list", got=bib.s(bib.tn(l)), groups=bib.s(groups), **d)
                        k.traces += 1
    k.sample({"bible": bib.name, "opt": opt})


def shapes(lo, hi):
    out = []
    for ln in range(lo, hi + 1):
        for sizes in set_partitions_seq(ln):
            out.append(nest([(1, 2, 0, 1, 2)[i] for i in range(ln)], sizes))
    return out


def jobs(tier):
    out = []
    for s in shapes(0, 3):
        out += shards(f"items-{s}-3", explore, ("items", s, 3), 4)
    for s in shapes(4, 4):
        out += shards(f"items-{s}-3", explore, ("items", s, 3), 4)
    for s in shapes(0, 4):
        out.append((f"ranges-{s}-2", explore, ("ranges", s, 2, 0, 1)))
    for s in shapes(1, 4):
        out.append((f"items-read-{s}-2", explore, ("items", s, 2, 0, 1, True)))
    for s in shapes(1, 2):
        out.append((f"items-read-{s}-3", explore, ("items", s, 3, 0, 1, True)))
    out += shards("long", long_lists, (5, 16), 16) + shards("long-40", long_lists, (40, 40), 8)
    for o in OPTS[:2]:
        out.append((f"set-updates-T-{o}", set_updates, (T, o)))
    out.append(("set-updates-C-Z", set_updates, (C, "Z")))
    import huge
    out.append(("huge", huge.views, ()))
    if tier == "thorough":
        for s in shapes(5, 5):
            out += shards(f"items-{s}-3", explore, ("items", s, 3), 8)
        for s in shapes(1, 4):
            out += shards(f"ranges-{s}-3", explore, ("ranges", s, 3), 8)
        for s in shapes(0, 3):
            out += shards(f"items-{s}-4", explore, ("items", s, 4), 16)
        for o in OPTS:
            out.append((f"set-updates-C-{o}-t", set_updates, (C, o)))
            out.append((f"set-updates-B-{o}-t", set_updates, (B, o)))
    return out
