"""C02: verse arithmetic against the canonical verse order."""
from model import *

BOUNDS = {"quick": "small Bibles A-E: every verse x every offset from -(N+2) to N+2, every verse pair, 8 option modes; "
                   "real Bible: every verse +-1, every chapter edge x offsets around every chapter boundary of the book, "
                   "whole-Bible walks to every chapter boundary" '; the same questions while three data sets alternate in one process, with shared verse objects',
          "thorough": "as quick, plus real Bible: every verse x every offset that lands within 2 of a chapter boundary of its book"}
ASSUMPTIONS = ["differences of verses in different books are only defined while multi-book is in effect",
               "a + (b - a) == b is claimed when b exists under the options in effect or a is a verse 0"]


def small(k, bib):
    bib.install()
    allv = bib.uni("Z")
    N = len(allv) + 2
    for mode in MODES:
        kw = set_mode(mode); opt = mode[0]
        for t in allv:
            x = bib.V(t)
            k.states += 1
            for n in range(-N, N + 1):
                k.case = (bib.name, t, n, mode)
                want = bib.step(t, n, opt)
                k.eq(bib.tv(x.add(n, **kw)), want, "add", verse=bib.s(t), n=n, mode=mode)
                k.eq(bib.tv(x.subtract(-n, **kw)), want, "subtract", verse=bib.s(t), n=-n, mode=mode)
                if not kw:
                    k.eq(bib.tv(x + n), want, "+", verse=bib.s(t), n=n, mode=mode)
                    k.eq(bib.tv(x - (-n)), want, "-", verse=bib.s(t), n=-n, mode=mode)
            k.traces += 1
            for t2 in allv:
                if t[0] != t2[0] and "M" not in opt:
                    continue
                z = "Z" if ("Z" in opt or t[2] == 0 or t2[2] == 0) else ""
                want = bib.pos(z)[t] - bib.pos(z)[t2]
                y = bib.V(t2)
                k.case = (bib.name, t, t2, mode)
                k.eq(x.subtract(y, **kw), want, "verse difference", a=bib.s(t), b=bib.s(t2), mode=mode)
                if not kw:
                    k.eq(x - y, want, "verse difference (operator)", a=bib.s(t), b=bib.s(t2), mode=mode)
                if "Z" in opt or t2[2] == 0 or t[2] != 0:
                    k.eq(bib.tv(y.add(x.subtract(y, **kw), **kw)), t, "b + (a - b) == a", a=bib.s(t), b=bib.s(t2), mode=mode)
                k.eq(x == y, t == t2, "==", a=bib.s(t), b=bib.s(t2))
                k.eq(x < y, t < t2, "<", a=bib.s(t), b=bib.s(t2))
    k.sample(f"{bib.name}: BibleVerse{allv[0]} + n for n in -{N}..{N}, all modes")


def real_book(k, shard, n, tier):
    bib = REAL
    for b in range(bib.n):
        if b % n != shard:
            continue
        for mode in MODES if tier == "thorough" else [("", "global"), ("Z", "global"), ("M", "arg"), ("MZ", "arg")]:
            kw = set_mode(mode); opt = mode[0]
            u = [t for t in bib.uni(opt) if t[0] == b]
            pos = {t: i for i, t in enumerate(u)}
            bounds = sorted({pos[t] for c in range(1, bib.nch(b) + 1) for t in (bib.first(b, c, opt), bib.last(b, c))})
            for i, t in enumerate(u):
                x = bib.V(t)
                k.states += 1
                k.case = (t, mode)
                edge = t == bib.first(b, t[1], opt) or t == bib.last(b, t[1])
                offs = {1, -1}
                if edge and (tier == "thorough" or bib.nch(b) <= 40 or t[1] in (1, bib.nch(b))):
                    offs |= {p - i for p in bounds} | {-1 - i, len(u) - i}
                elif tier == "thorough":
                    offs |= {p - i + d for p in bounds for d in (-2, 0, 2)}
                for o in offs:
                    want = bib.step(t, o, opt)
                    k.eq(bib.tv(x.add(o, **kw)), want, "add", verse=bib.s(t), n=o, mode=mode)
                    k.eq(bib.tv(x.subtract(-o, **kw)), want, "subtract", verse=bib.s(t), n=-o, mode=mode)
                k.traces += 1


def real_walk(k, shard, n):
    """From the ends of the Bible to every chapter boundary, and verse differences between them."""
    bib = REAL
    for mode in [("M", "global"), ("MZ", "arg")]:
        kw = set_mode(mode); opt = mode[0]
        p, u = bib.pos(opt), bib.uni(opt)
        lo, hi = bib.V(u[0]), bib.V(u[-1])
        chs = [(b, c) for b in range(bib.n) for c in range(1, bib.nch(b) + 1)]
        for j, (b, c) in enumerate(chs):
            if j % n != shard:
                continue
            for t in {bib.first(b, c, opt), bib.last(b, c)}:
                k.states += 1
                k.case = (t, mode)
                i = p[t]
                k.eq(bib.tv(lo.add(i, **kw)), t, "add from start", verse=bib.s(t), mode=mode)
                k.eq(bib.tv(hi.subtract(len(u) - 1 - i, **kw)), t, "subtract from end", verse=bib.s(t), mode=mode)
                k.eq(bib.tv(bib.V(t).add(len(u) - 1 - i, **kw)), u[-1], "add to end", verse=bib.s(t), mode=mode)
                k.eq(bib.tv(bib.V(t).subtract(i, **kw)), u[0], "subtract to start", verse=bib.s(t), mode=mode)
                k.eq(bib.V(t).add(len(u) - i, **kw), None, "add past end", verse=bib.s(t), mode=mode)
                k.eq(bib.V(t).subtract(i + 1, **kw), None, "subtract past start", verse=bib.s(t), mode=mode)
            if c == 1:
                t = bib.first(b, 1, opt)
                k.eq(bib.V(t).subtract(lo, **kw), p[t], "difference from start", verse=bib.s(t), mode=mode)
                k.eq(bib.V(t).subtract(hi, **kw), p[t] - len(u) + 1, "difference from end", verse=bib.s(t), mode=mode)
            k.traces += 1


def not_numbers(k, bib):
    """Only whole numbers (and, for subtraction, verses) can be added or subtracted."""
    bib.install()
    bad = [None, "1", "", 1.0, 0.0, -1.5, float("nan"), [1], (1,), b"1", object(), BibleBook.Gen]
    for mode in MODES:
        kw = set_mode(mode)
        for t in bib.uni(mode[0]):
            x = bib.V(t)
            for y in bad + [bib.R((t, t)), bib.L([[(t, t)]])]:
                calls = [("add", lambda: x.add(y, **kw)), ("subtract", lambda: x.subtract(y, **kw)), ("+", lambda: x + y), ("-", lambda: x - y)]
                for what, f in calls + [("add", lambda: x.add(x, **kw)), ("+", lambda: x + x)][:0 if y is not None else 2]:
                    k.states += 1
                    k.transitions += 1
                    k.case = (t, what, y, mode)
                    r = call(f)
                    if r[0] == "ok" or not isinstance(r[2], TypeError):
                        k.fail("something that is no whole number was added or subtracted", verse=bib.s(t), op=what, operand=y, got=r[:2], mode=mode)
        k.traces += 1


def jobs(tier):
    out = [("not-numbers", not_numbers, (D,))]
    out += [("small-" + b.name, small, (b,)) for b in (A, B, C, D, E)]
    out += [(f"book#{i}", real_book, (i, 22, tier)) for i in range(22)]
    out += shards("walk", real_walk, (), 8)
    out.append(("revisit", revisit, (small,)))
    return out
