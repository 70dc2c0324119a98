"""C25: a refused operation changes nothing: after every refusal, in every state, everything is - and goes on - as if it had never been attempted."""
from c24 import *
from c24 import Q, RS, QS, S, ask, data, look, edits, start, fresh, all_lists, states

BOUNDS = {"quick": "~230 refusals per state (bad indices, wrong types at every place of a bulk edit, iterables that fail after every item, wrong operands of in-place operations, invalid views, absent items) in 75 states "
                   "with views held and iterations in progress, each followed by each of 36 edits; all ordered pairs of refusals in 3 states; comparisons that fail at every point of sort / remove / index / count / equals; "
                   "~60 unusable settings, their ordered pairs, and each followed by each usable one",
          "thorough": "as quick in 417 states and all ordered pairs of refusals in 12 states"}
ASSUMPTIONS = ["whether an unusual setting is refused is not claimed, only what follows if it is", "in-place set operations on references to books left out of the book order are not claimed"]
BAD = {"text": "Gen 1", "nothing": None, "number": 5, "verse": None, "list": None}


class Boom(Exception):
    pass


class T(S):
    """The objects of C24 and two views that are no longer valid, one of them of an item still in the list."""
    def __init__(self, nested):
        super().__init__(nested)
        extra = Q.R(RS[4])
        self.l.prepend(extra, new_group=True)
        self.stale = [self.l.groups[0]]
        self.l.pop(0)
        self.l.append(extra, new_group=True)
        gone = self.l.groups[-1]
        self.l.pop()
        self.stale.append(gone)


def failing(items, k):
    """An iterator over items that fails after k of them."""
    for i, x in enumerate(items):
        if i == k:
            raise Boom
        yield x
    if k == len(items):
        raise Boom


def refusals(n, ngroups, sizes):
    """(name, operation on T, must it be refused)"""
    x, y = Q.R(((1, 1, 1), (1, 1, 1))), Q.R(((0, 1, 1), (0, 1, 1)))
    absent = Q.R(((1, 1, 1), (1, 1, 2)))
    bad = dict(BAD, verse=x.start, list=[x])
    out = []

    def r(name, fn, must=True):
        out.append((name, fn, must))

    for i in (n, n + 1, -n - 1, 99, -99):
        r(f"get {i}", lambda t, i=i: t.l[i])
        r(f"set {i}", lambda t, i=i: t.l.__setitem__(i, x))
        r(f"delete {i}", lambda t, i=i: t.l.__delitem__(i))
        r(f"pop {i}", lambda t, i=i: t.l.pop(i))
        r(f"insert_group_at {i}", lambda t, i=i: t.l.insert_group_at(i))
        if i != n:
            r(f"insert {i}", lambda t, i=i: t.l.insert(i, x), i != -n - 1)
    for i in ("a", 1.5, slice(0, 1)):
        r(f"get {i}", lambda t, i=i: t.l[i], False)
        r(f"set {i}", lambda t, i=i: t.l.__setitem__(i, x), False)
        r(f"delete {i}", lambda t, i=i: t.l.__delitem__(i), False)
        r(f"insert {i}", lambda t, i=i: t.l.insert(i, x), False)
    if n == 0:
        r("pop", lambda t: t.l.pop())
        r("range of nothing", lambda t: t.l.range())
    for b, v in bad.items():
        for new in (False, True):
            r(f"append {b} {new}", lambda t, v=v, new=new: t.l.append(v, new_group=new))
            r(f"prepend {b} {new}", lambda t, v=v, new=new: t.l.prepend(v, new_group=new))
        for i in {0, n // 2, n}:
            r(f"insert {b} at {i}", lambda t, v=v, i=i: t.l.insert(i, v))
        for i in {0, n // 2, n - 1} if n else ():
            r(f"set {i} to {b}", lambda t, v=v, i=i: t.l.__setitem__(i, v))
        for g in range(ngroups):
            r(f"view {g} set to {b}", lambda t, v=v, g=g: t.l.groups[g].__setitem__(0, v))
            r(f"held view {g} set to {b}", lambda t, v=v, g=g: t.views[0][g].__setitem__(0, v))
        r(f"remove {b}", lambda t, v=v: t.l.remove(v))
        r(f"index {b}", lambda t, v=v: t.l.index(v))
        r(f"count {b}", lambda t, v=v: t.l.count(v))
        if b not in ("verse",):
            for op in ("union_update", "intersection_update", "difference_update", "sym_difference_update"):
                r(f"{op} {b}", lambda t, v=v, op=op: getattr(t.l, op)(v))
            for op in ("__ior__", "__iand__", "__isub__", "__ixor__"):
                r(f"{op} {b}", lambda t, v=v, op=op: getattr(t.l, op)(v))
    for how in ("extend", "append_group", "__iadd__"):
        for k in range(3):
            for b in ("text", "nothing", "list"):
                items = [x, y]
                items.insert(k, bad[b])
                r(f"{how} with {b} as item {k}", lambda t, how=how, items=items: getattr(t.l, how)(items))
                r(f"{how} with {b} as item {k} of a generator", lambda t, how=how, items=items: getattr(t.l, how)(z for z in items))
            r(f"{how} failing after {k}", lambda t, how=how, k=k: getattr(t.l, how)(failing([x, y], k)))
            r(f"{how} of itself failing after {k}", lambda t, how=how, k=k: getattr(t.l, how)(failing(t.l, min(k, len(t.l)))))
        r(f"{how} with no iterable", lambda t, how=how: getattr(t.l, how)(5))
        r(f"{how} with groups", lambda t, how=how: getattr(t.l, how)(t.l.groups), n > 0)
    r("remove absent", lambda t: t.l.remove(absent))
    r("index absent", lambda t: t.l.index(absent))
    for g in (ngroups, -ngroups - 1, 99):
        r(f"group {g}", lambda t, g=g: t.l.groups[g])
    for g in range(ngroups):
        for i in (-1, sizes[g], 99):
            r(f"view {g} get {i}", lambda t, g=g, i=i: t.views[0][g][i])
            r(f"view {g} set {i}", lambda t, g=g, i=i: t.views[0][g].__setitem__(i, x))
            r(f"view {g} delete {i}", lambda t, g=g, i=i: t.views[0][g].__delitem__(i))
    for j in range(2):
        r(f"invalid view {j} get", lambda t, j=j: t.stale[j][0])
        r(f"invalid view {j} set", lambda t, j=j: t.stale[j].__setitem__(0, x))
        r(f"invalid view {j} delete", lambda t, j=j: t.stale[j].__delitem__(0))
        r(f"invalid view {j} read", lambda t, j=j: list(t.stale[j]))
    r("split after nothing", lambda t: t.r.split(num_verses=0))
    r("assign to a verse", lambda t: setattr(t.v, "verse_num", 2))
    r("assign to a range", lambda t: setattr(t.r, "end", t.v))
    r("delete from a range", lambda t: delattr(t.r, "start"))
    r("hash a list", lambda t: hash(t.l))
    r("compare lists", lambda t: t.l < t.o)
    return out


def shape(nested):
    sizes = [len(g) for g in nested]
    return sum(sizes), len(sizes), sizes


def watch(t):
    """Iterations in progress."""
    its = [iter(t.l), reversed(t.l), iter(t.r)]
    return [(it, call(next, it)) for it in its]


def rest(its):
    return [[f[1]] + list(it) if f[0] == "ok" else [] for it, f in its]


def refuse(k, t, name, fn, must, before, d):
    """Apply a refused operation; True if everything is as before."""
    k.transitions += 1
    its = watch(t)
    got = call(fn, t)
    if got[0] == "ok":
        if must:
            k.fail("not refused", got=repr(got[1]), **d)
        return False
    now = call(look, t)
    if now != ("ok", before):
        k.fail("a refused operation changed something", got=now[:2], want=before, error=got[1], **d)
        return False
    seen = call(rest, its)
    want = [list(t.l), list(reversed(t.l)), list(t.r)]
    if seen[:2] != ("ok", want):
        k.fail("a refused operation disturbed an iteration in progress", got=repr(seen[1])[:300], error=got[1], **d)
    return True


def single_state(k, nested, opt):
    before = look(T(nested))
    d0 = data()
    after = {}
    for e, fn in edits():
        t = T(nested)
        r = call(fn, t.l)
        after[e] = (r[0], r[1] if r[0] == "exc" else None, Q.tn(t.l), [call(lambda v=v: [Q.tr(x) for x in v])[:2] for v in t.views[0]])
    for name, fn, must in refusals(*shape(nested)):
        k.states += 1
        k.case = (name, nested, opt)
        d = dict(refused=name, list=Q.s(nested), options=opt)
        if not refuse(k, T(nested), name, fn, must, before, d):
            continue
        k.extra["refusals"] = k.extra.get("refusals", 0) + 1
        for e, edit in edits():
            k.transitions += 1
            t = T(nested)
            call(fn, t)
            r = call(edit, t.l)
            got = (r[0], r[1] if r[0] == "exc" else None, Q.tn(t.l), [call(lambda v=v: [Q.tr(x) for x in v])[:2] for v in t.views[0]])
            if got != after[e]:
                k.fail("an edit after a refused operation goes differently", edit=e, got=got[:3], want=after[e][:3], **d)
    if data() != d0:
        k.fail("a refused operation changed the options or the Bible data", list=Q.s(nested), options=opt)
        start(opt)
    k.traces += 1


def single(k, sts, opts, shard, n):
    for opt in opts:
        start(opt)
        for i, nested in enumerate(sts):
            if i % n == shard:
                single_state(k, nested, opt)


def pairs(k, nested, opt, shard, n):
    start(opt)
    before = look(T(nested))
    rs = refusals(*shape(nested))
    for i, (n1, f1, m1) in enumerate(rs):
        if i % n != shard:
            continue
        if call(f1, T(nested))[0] == "ok":
            continue
        for n2, f2, m2 in rs:
            k.states += 1
            k.case = (n1, n2, nested)
            t = T(nested)
            call(f1, t)
            refuse(k, t, n2, f2, m2, before, dict(first=n1, refused=n2, list=Q.s(nested), options=opt))
        k.traces += 1


# --- comparisons that fail, at every point
class Item:
    """A value whose comparisons fail from a chosen one on."""
    left = None

    def __init__(self, x):
        self.x = x

    def cmp(self):
        if Item.left is not None:
            if Item.left == 0:
                raise Boom
            Item.left -= 1

    def __eq__(self, o):
        self.cmp()
        return self.x == o.x

    def __lt__(self, o):
        self.cmp()
        return self.x < o.x

    def __le__(self, o):
        self.cmp()
        return self.x <= o.x

    def __gt__(self, o):
        self.cmp()
        return self.x > o.x

    def __ge__(self, o):
        self.cmp()
        return self.x >= o.x

    __hash__ = None


def ids(l):
    return ([[id(x) for x in g] for g in l.groups], [id(x) for x in l], [id(x) for x in reversed(l)], len(l), len(l.groups), [id(l[i]) for i in range(-len(l), len(l))])


def faults(k, mx, shard, n):
    """Every list of up to mx items in every grouping: each operation that compares, with the comparison failing at every point."""
    ops = {"sort": lambda l, o: l.sort(), "remove": lambda l, o: l.remove(Item(9)), "index": lambda l, o: l.index(Item(9)), "count": lambda l, o: l.count(Item(0)),
           "contains": lambda l, o: Item(9) in l, "equals": lambda l, o: l.equals(o), "==": lambda l, o: l == o, "remove last": lambda l, o: l.remove(Item(l[-1].x)), "!=": lambda l, o: l != o}
    c = 0
    for m in range(1, mx + 1):
        for keys in itertools.product(range(min(m, 4)), repeat=m):
            for sizes in set_partitions_seq(m):
                c += 1
                if c % n != shard:
                    continue
                for name, op in ops.items():
                    for point in itertools.count():
                        k.states += 1
                        k.transitions += 1
                        k.case = (name, keys, sizes, point)
                        items = [Item(x) for x in keys]
                        l = GroupedList(nest(items, sizes))
                        o = GroupedList(nest([Item(x) for x in keys], sizes))
                        views = list(l.groups)
                        before, shown = ids(l), [[id(x) for x in v] for v in views]
                        Item.left = point
                        r = call(op, l, o)
                        Item.left = None
                        if r[0] == "ok" or r[1] != "Boom":
                            break
                        d = dict(operation=name, keys=keys, groups=sizes, failing_comparison=point)
                        now, vnow = call(ids, l), call(lambda: [[id(x) for x in v] for v in views])
                        if now != ("ok", before) or vnow != ("ok", shown):
                            k.fail("a failing comparison changed the list", same_items=now[0] == "ok" and now[1][1] == before[1], **d)
                            continue
                        r = call(l.sort)
                        w = sorted(items, key=lambda z: z.x)
                        if r[0] != "ok" or [id(x) for x in l] != [id(x) for x in w] or len(l.groups) != 1:
                            k.fail("sorting after a failing comparison goes wrong", **d)
                    k.traces += 1


def mixed(k, shard, n):
    """Items that cannot be compared with each other, and ranges of books without a place in the order."""
    for m in range(2, 6):
        for items in itertools.product((1, 2, "a"), repeat=m):
            for sizes in set_partitions_seq(m):
                k.states += 1
                l = GroupedList(nest(items, sizes))
                before = ids(l), l.to_nested_lists()
                r = call(l.sort)
                k.transitions += 1
                k.case = (items, sizes)
                if r[0] == "exc":
                    if (ids(l), l.to_nested_lists()) != before:
                        k.fail("a sort that is refused changed the list", items=items, groups=sizes, got=l.to_nested_lists())
                    l.append(0), l.reverse(), l.pop(), l.clear_groups()
                    want = [0] + list(items)[:0:-1]
                    if list(l) != want:
                        k.fail("editing after a refused sort goes wrong", items=items, groups=sizes, got=list(l), want=want)
    for dropped in ([0], [1], [0, 2], [1, 2], [0, 1, 2]):
        for nested in all_lists([RS[0], RS[2], ((1, 1, 1), (1, 1, 1)), RS[4]], 4):
            start("")
            l = Q.L(nested)
            bible_data().book_order = [b for i, b in enumerate(list(bible_data().book_order)) if i not in dropped]
            k.states += 1
            k.case = (dropped, nested)
            for regroup in (False, True):
                before = Q.tn(l)
                r = call(l.sort, regroup=regroup)
                k.transitions += 1
                if r[0] == "exc" and Q.tn(l) != before:
                    k.fail("a sort that is refused changed the list", list=Q.s(nested), dropped=dropped, got=call(Q.tn, l)[1])
                if r[0] == "ok" and sorted(Q.tl(l)) != sorted(x for g in nested for x in g):
                    k.fail("a sort lost ranges", list=Q.s(nested), dropped=dropped)
    k.traces += 1


# --- settings
def bad_settings():
    G, O = BibleBook.Gen, BibleBook.Obad
    for a in ("range_sep", "major_list_sep", "minor_list_sep", "verse_sep_std", "verse_sep_alt"):
        for v in (None, "", 5, "\n", "\x00", b"-", ["-"], object()):
            yield a, v
    for v in (None, [G, G], ["Gen"], [G, None], [O, G, "Psa"], 5, [O, G, O], [[G]]):
        yield "book_order", v
    for v in (None, 5, {G: ()}, {G: ("Gen", "Genesis", 2)}, {O: ("Ob", "Obadiah", 2, []), G: ("Gen", None, 2, [])}, {G: ("Gen", "Gen(", 4, [])}, {O: ("Ob", "Obadiah", 2, []), G: ("G", "Genesis", 2, ["("])},
              {G: ("Ge", "Genesis", 2, []), O: ("Ob", "Obadiah", None, [])}, {G: ("Ge", "Gen", 2, []), O: None}):
        yield "name_data", v
    for v in (None, 5, {G}, [O], [G, O]):
        yield "max_verses", v
        yield "verse_0s", v


def good_settings():
    G, O, P = BibleBook.Gen, BibleBook.Obad, BibleBook.Psa
    return [("range_sep", "~"), ("major_list_sep", "|"), ("minor_list_sep", "/"), ("verse_sep_std", "!"), ("verse_sep_alt", "~"), ("book_order", [P, O, G]),
            ("name_data", {G: ("G", "Ganzes", 2, []), O: ("O", "Obadja", 2, ["Od"]), P: ("P", "Psalmen", 1, [])}), ("max_verses", {G: [2, 3, 4], O: [3], P: [1, 2, 2]}),
            ("verse_0s", {O: {1}, G: {1, 2}, P: {1}})]


def all_answers(nested):
    return {n: ask(n, S(nested))[0] for n in QS}


def where():
    d = bible_data()
    return data(), [id(x) for x in (d.book_order, d.name_data, d.max_verses, d.verse_0s)], [(b.order, b.title, b.abbrev, b.regex.pattern if b.regex else None) for b in BibleBook]


def refused_setting(k, a, v, d):
    """Assign; True if it was refused."""
    k.transitions += 1
    before = where()
    r = call(setattr, bible_data(), a, v)
    if r[0] == "ok":
        return False
    if where() != before:
        now = where()
        k.fail("a refused setting was partly made", setting=a, value=repr(v)[:80], error=r[1], got=[x for x, y in zip(now[0], before[0]) if x != y][:1], **d)
        return None
    return True


def settings(k, shard, n):
    nested = PAIRS[0]
    start("")
    want = in_fork(lambda: all_answers(nested))
    goods = good_settings()
    few = ("parse", "list str", "range m str", "book names", "verse make")

    def forked(fn):
        """Run in a fork, and collect what fails there."""
        def f():
            k.fails = []
            return fn(), k.fails
        r, fails = in_fork(f)
        k.fails += fails
        return r

    def with_good(a, v):
        setattr(bible_data(), a, v)
        return where()[0], all_answers(nested)
    wgood = [in_fork(lambda a=a, v=v: with_good(a, v)) for a, v in goods]
    bads = list(bad_settings())
    for i, (a, v) in enumerate(bads):
        if i % n != shard:
            continue
        k.states += 1
        k.case = (a, repr(v))
        d = dict(after="nothing")

        def alone():
            r = refused_setting(k, a, v, d)
            return r, all_answers(nested) if r else None
        r, got = forked(alone)
        if not r:
            continue
        k.extra["refused_settings"] = k.extra.get("refused_settings", 0) + 1
        diff = [q for q in want if got[q] != want[q]]
        if diff:
            k.fail("answers changed after a refused setting", setting=a, value=repr(v)[:80], questions=diff[:3], got=got[diff[0]], want=want[diff[0]])
        for (ga, gv), w in zip(goods, wgood):
            k.states += 1

            def then():
                call(setattr, bible_data(), a, v)
                return with_good(ga, gv)
            got = in_fork(lambda: call(then)[:2])
            if got[0] != "ok":
                k.fail("a setting fails after a refused one", refused=(a, repr(v)[:80]), setting=ga, got=got[1])
                continue
            diff = [q for q in w[1] if got[1][1][q] != w[1][q]]
            if got[1][0] != w[0] or diff:
                k.fail("a setting after a refused one takes another effect", refused=(a, repr(v)[:80]), setting=ga, questions=diff[:3])

            def before():
                setattr(bible_data(), ga, gv)
                r = refused_setting(k, a, v, dict(after=ga))
                return r, all_answers(nested) if r else None
            r, got = forked(before)
            if r:
                diff = [q for q in w[1] if got[q] != w[1][q]]
                if diff:
                    k.fail("answers changed after a refused setting", after=ga, setting=a, value=repr(v)[:80], questions=diff[:3], got=got[diff[0]], want=w[1][diff[0]])
        for b, u in bads:
            k.states += 1

            def both():
                r = [refused_setting(k, *x, dict(after="another refused one" if j else "nothing")) for j, x in enumerate(((a, v), (b, u)))]
                return [ask(q, S(nested))[0] for q in few] if all(r) else None
            got = forked(both)
            if got is not None and got != [want[q] for q in few]:
                k.fail("answers changed after two refused settings", settings=(a, repr(v)[:80], b, repr(u)[:80]))
        k.traces += 1


def jobs(tier):
    big = tier == "thorough"
    sts = [[]] + [l for l in all_lists(RS[:3], 2)] + [nest(s, sz) for s in ([RS[0], RS[1], RS[2]], [RS[2], RS[3], RS[2]], [RS[4], RS[0], RS[0]]) for sz in set_partitions_seq(3)] + PAIRS
    sts += [nest([RS[1], RS[0], RS[2], RS[1]], sz) for sz in set_partitions_seq(4)]
    if big:
        sts = [[]] + states(3)
    out = shards("single", single, (sts, ["", "MZ"] if big else [""]), 32 if big else 16)
    for i, nested in enumerate(sts[3:15] if big else ([], PAIRS[0], PAIRS[1])):
        out += shards(f"pairs{i}", pairs, (nested, ""), 4)
    out += shards("faults", faults, (6 if big else 5,), 16)
    out += shards("mixed", mixed, (), 1)
    out += shards("settings", settings, (), 16)
    return out
