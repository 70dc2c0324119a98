"""Lists with a history: every sequence of edits up to a depth from every small list, the list being queried (`warm`) before the first edit
and after each one; at the end `probe` must see exactly what the current items and groups say, whatever happened before."""
from model import *
from grouping import natural_groups
import c10


def ops(m, d):
    n = sum(map(len, m))
    v, w = c10.VALS[d], c10.VALS[d + 1]
    out = [("append", v, False), ("append", v, True), ("prepend", v, False), ("prepend", v, True), ("extend", (w, v)), ("iadd", (v,)),
           ("append_group", (v, w)), ("merge",), ("regroup",), ("sorted",), ("clear",), ("ior", v)]
    if n:
        out += [("iand", v), ("isub", v), ("ixor", v), ("reverse",), ("sort",), ("clear_groups",), ("pop",), ("remove", c10.flat(m)[-1])]
        for i in sorted({0, n - 1}):
            out += [("set", i, v), ("del", i)]
        for i in range(1, n):
            out += [("insert", i, v), ("insert_group_at", i)]
        out += [("vset", len(m) - 1, 0, v), ("vdel", 0, len(m[0]) - 1), ("vset", 0, len(m[0]) - 1, w)]
    return out


def apply_model(bib, opt, m, op, vals):
    """m: groups of indices into vals."""
    name, a = op[0], op[1:]
    if name == "vset":
        m[a[0]][a[1]] = a[2]
    elif name == "vdel":
        del m[a[0]][a[1]]
        m[:] = [g for g in m if g]
    elif name == "sort":
        f = sorted(c10.flat(m), key=lambda x: vals[x])
        m[:] = [f] if f else []
    elif name in ("merge", "ior", "iand", "isub", "ixor", "regroup", "sorted"):
        rs = [vals[x] for x in c10.flat(m)]
        if name == "sorted":
            rs.sort()
        elif name != "regroup":
            if name == "merge":
                s = bib.vset(rs, opt)
            else:
                x, y = bib.vset(rs, opt), bib.vset([vals[a[0]]], opt)
                s = {"ior": x | y, "iand": x & y, "isub": x - y, "ixor": x ^ y}[name]
            u = bib.uni(opt)
            rs = bib.merge([(u[i], u[i]) for i in s], opt)
        for r in rs:
            if r not in vals:
                vals.append(r)
        m[:] = [[vals.index(r) for r in g] for g in natural_groups(bib, rs, opt)]
    else:
        c10.apply_model(m, op)


def apply_real(l, op, enc):
    name, a = op[0], op[1:]
    if name == "vset":
        l.groups[a[0]][a[1]] = enc(a[2])
    elif name == "vdel":
        del l.groups[a[0]][a[1]]
    elif name in ("merge", "regroup"):
        getattr(l, name)()
    elif name == "sorted":
        l.sort()
    elif name == "ior":
        l |= enc(a[0])
    elif name == "iand":
        l &= enc(a[0])
    elif name == "isub":
        l -= enc(a[0])
    elif name == "ixor":
        l ^= enc(a[0])
    else:
        c10.apply_real(l, op, enc)


def values(bib, opt):
    """Four ranges: a verse, an overlapping one, one in another book, a whole chapter or more."""
    u = bib.uni(opt)
    return [(u[0], u[0]), (u[0], u[1]), (bib.first(bib.n - 1, None, opt), bib.last(bib.n - 1)), (u[1], bib.last(0))]


STARTS = [[]] + [nest(list(s), z) for s in ((0,), (2,), (2, 0), (1, 0), (0, 3, 2), (2, 1, 0)) for z in set_partitions_seq(len(s))]


def explore(k, bib, opts, depth, warm, probe, starts, shard, n):
    """warm(list) is called between edits; probe(k, list, groups of model ranges, opt, history) judges the end."""
    bib.install()
    for opt in opts:
        bibleref.flags = FLAGS[opt]
        cnt = 0
        objs = {}
        for start in STARTS if starts is None else starts:
            vals0 = values(bib, opt)

            def enc(x):
                r = vals[x]
                if r not in objs:
                    objs[r] = bib.R(r)
                return objs[r]

            def rec(hist, m, d):
                nonlocal vals, cnt
                for op in ops(m, d):
                    if d == 0:
                        cnt += 1
                        if cnt % n != shard:
                            continue
                    h = hist + [op]
                    k.case = (bib.name, opt, start, h)
                    l = BibleRangeList()
                    for g in start:
                        l.append_group([enc(x) for x in g])
                    for o in h:
                        warm(l)
                        apply_real(l, o, enc)
                    m2 = [list(g) for g in m]
                    apply_model(bib, opt, m2, op, vals)
                    k.states += 1
                    k.traces += 1
                    probe(k, l, [[vals[x] for x in g] for g in m2], opt, str([bib.s([vals[x] for x in range(4)]), start] + h))
                    if d + 1 < depth:
                        rec(h, m2, d + 1)
            vals = list(vals0)
            rec([], [list(g) for g in start], 0)
    k.sample({"bible": bib.name, "start": str(start), "last history": str(k.case)})
