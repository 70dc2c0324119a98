"""Very long lists: sizes beyond Python's recursion limit, every operation once per grouping (loop bounds, recursion, block sizes)."""
from model import *
from grouping import natural_groups
from interp import interpret

N = 1100
SIZES = {"one group": (N,), "one each": (1,) * N, "fives": (5,) * (N // 5), "first and rest": (1, N - 1), "rest and last": (N - 1, 1)}


def seq_of(step, opt, width=1, start=0):
    """N ranges of `width` verses, `step` verses apart, across chapters and books (never across a book boundary)."""
    u = REAL.uni(opt)
    out, i = [], start
    while len(out) < N:
        if u[i][0] == u[i + width - 1][0]:
            out.append((u[i], u[i + width - 1]))
        i += step
    return out


def begin(opt):
    REAL.install()
    bibleref.flags = FLAGS[opt]


def reads(k, l, want, what, **d):
    """Read a list in every way that visits all of it once."""
    f = [x for g in want for x in g]
    got = call(lambda: (REAL.tl(l), REAL.tl(reversed(l)), len(l), REAL.tn(l), len(l.groups), [[REAL.tr(x) for x in g] for g in l.to_nested_lists()]))
    k.transitions += 6
    k.states += 1
    if got[0] != "ok":
        k.fail(what + ": a very long list cannot be read", got=got[1], **d)
        return
    for nm, a, b in zip(("forward", "backward", "length", "groups", "group count", "nested lists"), got[1], (f, f[::-1], len(f), want, len(want), want)):
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b))) if isinstance(a, list) else None
            k.fail(f"{what}: very long list differs by {nm}", at=i, got=str(a[i:i + 2] if i is not None else a)[:300],
                   want=str(b[i:i + 2] if i is not None else b)[:300], lengths=(len(a), len(b)) if i is not None else None, **d)


def ok(k, fn, what, **d):
    r = call(fn)
    k.transitions += 1
    if r[0] != "ok":
        k.fail(what + " failed on a very long list", got=r[1], message=str(r[2])[:200], **d)
        return False, None
    return True, r[1]


def sets(k, name):
    """C07: one operation between two very long lists, functional and in place."""
    op, sizes = name
    begin("")
    a, b = seq_of(2, ""), seq_of(3, "", 2)
    s1, s2 = REAL.vset(a, ""), REAL.vset(b, "")
    want = {"union": s1 | s2, "intersection": s1 & s2, "difference": s1 - s2, "sym_difference": s1 ^ s2}[op]
    l, m = REAL.L(nest(a, SIZES[sizes])), REAL.L(nest(b, SIZES["fives"]))
    k.case = name
    for how in ("value", "in place"):
        if how == "value":
            good, r = ok(k, lambda: getattr(l, op)(m), op, op=op, sizes=sizes)
        else:
            good, r = ok(k, lambda: (getattr(l, op + "_update")(m), l)[1], op + "_update", op=op, sizes=sizes)
        if good:
            got = REAL.tl(r)
            k.eq(REAL.vset(got, "") == want, True, "verses of " + op, how=how, sizes=sizes)
            k.eq(got == REAL.merge(got, ""), True, op + " is canonical", how=how, sizes=sizes)
            k.states += 1
    k.traces += 1


def tests(k):
    """C07: relations on very long lists."""
    begin("")
    a, odd = seq_of(2, ""), seq_of(2, "", 1, 1)
    for nm in ("fives", "first and rest"):
        l = REAL.L(nest(a, SIZES[nm]))
        for other, dis, con in ((odd, True, False), (a[:-1] + odd[-1:], False, False), (a, False, True), (a[::-1], False, True), (a[N // 2:], False, True),
                                (odd[:-1] + a[-1:], False, False)):
            o = REAL.L([other])
            k.eq((call(l.is_disjoint, o)[1], call(l.contains, o)[1]), (dis, con), "relations of very long lists", sizes=nm)
            k.states += 1
        k.traces += 1


def totals(k):
    """C09 on very long lists."""
    from c09 import stats
    begin("")
    for step, width in ((2, 1), (3, 2), (17, 1)):
        a = seq_of(step, "", width)
        st = [stats(REAL, r, "") for r in a]
        for nm, sizes in SIZES.items():
            l = REAL.L(nest(a[N // 2:] + a[:N // 2], sizes))
            good, got = ok(k, lambda: (l.verse_count(), l.chap_count(), l.chap_count(whole=True), l.book_count(), l.book_count(whole=True)), "counts", sizes=nm)
            if good:
                k.eq(got, tuple(sum(s[j] for s in st) for j in range(5)), "counts of a very long list", sizes=nm, step=step)
            s, e = a[0][0], a[-1][1]
            good, got = ok(k, lambda: [REAL.tr(l.range()), REAL.tr(l.chap_range()), REAL.tr(l.book_range())] , "bounding ranges", sizes=nm)
            if good:
                k.eq(got, [(s, e), (REAL.first(s[0], s[1]), REAL.last(e[0], e[1])), (REAL.first(s[0]), REAL.last(e[0]))], "bounding ranges of a very long list", sizes=nm)
            k.states += 1
            k.traces += 1


def edits(k, nm):
    """C10: every kind of edit at both ends and in the middle of very long lists."""
    from c10 import ops, apply_model, apply_real, Err, copym
    begin("")
    a = seq_of(2, "")
    start = nest(a, SIZES[nm])
    menu = [op for op in ops(start, 0, False) if op[0] not in ("remove", "bad", "iadd_self")]
    menu += [("insert", N // 2, 0), ("del", N // 2), ("insert_group_at", N // 2), ("insert_group_at", 3 - N), ("remove", a[N - 2]), ("remove", a[0]), ("popi", N // 2)]
    spare = seq_of(2, "", 1, 9001)
    put = lambda v: v if isinstance(v, tuple) else spare[v]
    for op in menu:
        k.case = (nm, op)
        # the model edit, with ranges as items; plain values of the menu stand for ranges outside the list
        o2 = op
        if op[0] in ("append", "prepend"):
            o2 = (op[0], put(op[1]), op[2])
        elif op[0] in ("insert", "set"):
            o2 = (op[0], op[1], put(op[2]))
        elif op[0] in ("extend", "iadd", "append_group", "extend_gen", "append_group_gen"):
            o2 = (op[0], tuple(put(v) for v in op[1]))
        m = copym(start)
        l = REAL.L(start)
        try:
            want = ("ok", apply_model(m, o2))
        except Err as e:
            want = ("exc", str(e))
        got = call(apply_real, l, o2, REAL.R)
        if got[0] != want[0] or got[0] == "exc" and got[1] != want[1]:
            k.fail("edit of a very long list", got=str(got[1])[:100], want=str(want)[:100], op=str(op), sizes=nm)
            continue
        reads(k, l, m, "after " + op[0], op=str(op), sizes=nm)
        k.traces += 1
    l = REAL.L(start)
    k.eq([REAL.tr(l.pop(0)) for _ in range(N)] == a and not l and not len(l.groups), True, "a very long list emptied from the front", sizes=nm)
    l = REAL.L(start)
    k.eq([REAL.tr(l.pop()) for _ in range(N)] == a[::-1] and not l and not len(l.groups), True, "a very long list emptied from the back", sizes=nm)
    l = REAL.L(start)
    k.eq((l == REAL.L(start), l == REAL.L(start[:-1]), l != REAL.L(start), BibleRangeList(l) == l), (True, False, False, True), "comparison of very long lists", sizes=nm)
    k.eq([REAL.tr(l[i]) for i in range(-N, N, 37)], [a[i] for i in range(-N, N, 37)], "indexing a very long list", sizes=nm)
    k.eq([l.index(REAL.R(a[i])) for i in (0, 1, N // 2, N - 1)], [0, 1, N // 2, N - 1], "index in a very long list", sizes=nm)
    k.eq([l.count(REAL.R(a[i])) for i in (0, 1, N // 2, N - 1)], [1] * 4, "count in a very long list", sizes=nm)
    k.traces += 1


def views(k):
    """C11: views on every group of very long lists, before and after edits."""
    begin("")
    a = seq_of(2, "")
    x = ((65, 22, 1), (65, 22, 1))
    for nm, sizes in SIZES.items():
        groups = nest(a, sizes)
        starts = [0]
        for s in sizes:
            starts.append(starts[-1] + s)
        for what in ("del first", "del last", "del middle", "append", "append group", "merge groups", "split", "clear", "set"):
            l = REAL.L(groups)
            vs = list(l.groups)
            m = [list(g) for g in groups]
            dead = set()
            if what[:3] == "del":
                i = {"first": 0, "last": N - 1, "middle": N // 2}[what[4:]]
                gi = next(j for j in range(len(sizes)) if i < starts[j + 1])
                vs[gi].__delitem__(i - starts[gi])
                m[gi].pop(i - starts[gi])
                if not m[gi] or i == starts[gi]:
                    dead = {gi} if not m[gi] else set()
            elif what == "append":
                l.append(REAL.R(x)); m[-1].append(x)
            elif what == "append group":
                l.append_group([REAL.R(x)])
            elif what == "merge groups":
                l.clear_groups(); m = [a] + [None] * (len(m) - 1)
            elif what == "split":
                l.insert_group_at(N - 1)
                if len(m[-1]) > 1:
                    m[-1] = m[-1][:-1]
            elif what == "clear":
                l.clear(); m = [None] * len(m)
            elif what == "set":
                l[N - 1] = REAL.R(x); m[-1][-1] = x
            k.case = (nm, what)
            for j, v in enumerate(vs):
                got = call(lambda: REAL.tl(v))
                k.transitions += 1
                if got[0] == "exc" and not isinstance(got[2], GroupViewError):
                    k.fail("a view of a very long list", edit=what, sizes=nm, group=j, got=got[1])
                elif got[0] == "ok" and (m[j] is None or not m[j] or got[1] != m[j]):
                    k.fail("a view of a very long list shows something else", edit=what, sizes=nm, group=j, got=str(got[1])[:200], want=str(m[j])[:200])
                elif got[0] == "exc" and m[j] and j not in dead and what != "merge groups" and not (what[:3] == "del"):
                    k.fail("a view of a living group refuses", edit=what, sizes=nm, group=j)
            k.states += 1
            k.traces += 1


def text(k, nm):
    """C13 and C15: a very long list is written and read back."""
    begin("")
    a = seq_of(2, "", 1, 26000)
    l = REAL.L(nest(a, SIZES[nm]))
    for fmt in ({}, dict(abbrev=True), dict(preserve_groups=False), dict(force_start_verses=True, nospace=True)):
        k.case = (nm, fmt)
        good, s = ok(k, lambda: l.str(**fmt), "str", sizes=nm)
        if not good:
            continue
        want = interpret(REAL, s, "")
        k.eq((want[0], [x for g in want[1] for x in g] == a), ("ok", True), "the text of a very long list names its ranges", sizes=nm, fmt=str(fmt))
        if fmt.get("preserve_groups", True):
            k.eq([len(g) for g in want[1]] == list(SIZES[nm]), True, "the text of a very long list keeps its groups", sizes=nm, fmt=str(fmt))
        good, r = ok(k, lambda: BibleRangeList(s), "reading back", sizes=nm)
        if good:
            reads(k, r, want[1], "read back", sizes=nm, fmt=str(fmt))
        k.traces += 1


def regroup(k):
    """C14 on very long lists."""
    begin("")
    for step, width, st in ((2, 1, 0), (3, 2, 0), (2, 1, 26000)):
        a = seq_of(step, "", width, st)
        want = natural_groups(REAL, a, "")
        for nm, sizes in SIZES.items():
            l = REAL.L(nest(a, sizes))
            if ok(k, l.regroup, "regroup", sizes=nm)[0]:
                reads(k, l, want, "regroup", sizes=nm)
            k.traces += 1


def parse(k):
    """C15: very long texts."""
    begin("")
    i = REAL.bidx[BibleBook.Psa]
    first = lambda c: (REAL.first(i, c), REAL.last(i, c))
    for n in (1, 150, 1001, 1500):
        for sep in (", ", ";", ","):
            k.case = (n, sep)
            s = "Ps " + sep.join(str(1 + j % 150) for j in range(n))
            good, r = ok(k, lambda: BibleRangeList(s), "parse", n=n, sep=sep)
            if good:
                w = [first(1 + j % 150) for j in range(n)]
                reads(k, r, [[x] for x in w] if ";" in sep else [w], "parse", n=n, sep=sep)
        bad = "Ps " + ", ".join(["1"] * n) + ", 151"
        e = call(BibleRangeList, bad)
        k.eq((e[0], e[1], getattr(e[2], "start_pos", None), getattr(e[2], "end_pos", None)) if e[0] == "exc" else e[0],
             ("exc", "BibleRefParsingError", len(bad) - 3, len(bad)), "error at the end of a very long text", n=n)
        for tail, at in ((", $", 1), ("; :1", 2), (", 1:", 0), (" 1", 1)):
            bad = "Ps " + ", ".join(["1"] * n) + tail
            e = call(BibleRangeList, bad)
            k.eq((e[0], e[1], getattr(e[2], "start_pos", None), getattr(e[2], "end_pos", None)) if e[0] == "exc" else e[0],
                 ("exc", "BibleRefParsingError", len(bad) - at, len(bad) - at + (at > 0)), "unexpected text at the end of a very long text", n=n, tail=tail)
        k.traces += 1
