"""C05: splitting a range partitions it at exactly the requested boundaries."""
from model import *

BOUNDS = {"quick": "small Bibles A-E: all ranges x by_book x by_chap x verse limits (none, 1..length+1) x regroup x 8 option modes; "
                   "real Bible: every book and neighbouring book pairs and ranges over four books by chapter / book / limits 1, 2, 7, 100 and around chapter and book lengths" '; alternating data sets with shared range objects',
          "thorough": "as quick plus a 17-verse Bible with every limit"}
ASSUMPTIONS = ["a range with a verse-0 endpoint includes headings whatever the options (documented by BibleRange.split's handling)"]
H = Bible("H", [("Gen", [3, 1, 2], ()), ("Obad", [3], {1}), ("Psa", [2, 2, 1], {2, 3}), ("Jude", [1], ()), ("Rev", [2], ())])


def expected(bib, r, by_book, by_chap, num, opt):
    out, cur = [], []
    for t in bib.verses(r, opt):
        if cur:
            prev = cur[-1]
            cut = (by_book and prev[0] != t[0]) or (by_chap and prev[:2] != t[:2]) or (num is not None and len(cur) == num)
            if cut:
                out.append((cur[0], cur[-1])); cur = []
        cur.append(t)
    out.append((cur[0], cur[-1]))
    return out


def one(k, bib, r, mode, kw, bb, bc, num):
    x = bib.R(r)
    want = expected(bib, r, bb, bc, num, "Z" if r[0][2] == 0 or r[1][2] == 0 else mode[0]) # an endpoint may be a heading
    d = dict(bible=bib.name, range=bib.s(r), by_book=bb, by_chap=bc, num_verses=num, mode=mode)
    k.case = d
    for rg in (True, False):
        got = x.split(by_book=bb, by_chap=bc, num_verses=num, regroup=rg, **kw)
        g = bib.tl(got)
        if not k.eq(g, want, "split", regroup=rg, **d):
            pass
        k.eq([t for grp in bib.tn(got) for t in grp], want, "split (through groups)", regroup=rg, **d)
        tamper(got)
        if rg:
            k.eq(bib.tl(x.split(by_book=bb, by_chap=bc, num_verses=num, regroup=rg, **kw)), want, "split after editing an earlier result", **d)
    k.eq(bib.tr(x), r, "range changed by split", **d)
    k.traces += 1


def small(k, bib, shard, n):
    bib.install()
    for mode in MODES:
        kw = set_mode(mode)
        for i, r in enumerate(bib.ranges("Z")):
            if i % n != shard:
                continue
            k.states += 1
            ln = len(bib.verses(r, "Z"))
            for bb, bc in itertools.product((False, True), repeat=2):
                for num in [None] + list(range(1, ln + 2)):
                    one(k, bib, r, mode, kw, bb, bc, num)
            for num in (0, -1, -5):
                k.transitions += 1
                g = call(bib.R(r).split, num_verses=num, **kw)
                if g[0] == "ok" or not isinstance(g[2], ValueError):
                    k.fail("verse limit below one accepted", range=bib.s(r), num_verses=num, got=g)
    k.sample(f"{bib.name}: split {bib.s(r)} every way under {mode}")


def real(k, shard, n, tier):
    bib = REAL
    for mode in MODES if tier == "thorough" else [("", "global"), ("MZ", "arg")]:
        kw = set_mode(mode); opt = mode[0]
        for b in range(bib.n):
            if b % n != shard:
                continue
            rs = [(bib.first(b, None, opt), bib.last(b))]
            if b + 1 < bib.n:
                rs.append((bib.first(b, bib.nch(b), opt), bib.last(b + 1, 1)))
                rs.append((bib.last(b), bib.first(b + 1, None, opt)))
            if b + 3 < bib.n:
                rs.append((bib.last(b, 1), bib.first(b + 3, bib.nch(b + 3), opt)))
            for r in rs:
                k.states += 1
                m, bl = bib.maxv[b][0], len(bib.verses((bib.first(b, None, opt), bib.last(b)), opt))
                for bb, bc, num in [(bb, bc, num) for bb, bc in ((False, False), (True, False), (False, True))
                                    for num in (m - 1, m, m + 1, bl - 1, bl, bl + 1, 176, 5000) if num > 0] + \
                                   [(False, True, None), (True, False, None), (True, True, 7), (False, False, 100),
                                    (False, True, 2), (False, False, 1), (True, False, 31), (False, False, None)]:
                    one(k, bib, r, mode, kw, bb, bc, num)


def whole(k, mode, crit):
    bib = REAL
    kw = set_mode(mode); opt = mode[0]
    k.states += 1
    one(k, bib, (bib.uni(opt)[0], bib.uni(opt)[-1]), mode, kw, *crit)


def jobs(tier):
    out = []
    for b in (A, B, C, D, E) + (H,):
        out += shards("small-" + b.name, small, (b,), 16 if b in (A, D, H) else 2)
    out += [(f"real#{i}", real, (i, 16, tier)) for i in range(16)]
    for m in [("", "global"), ("Z", "arg")]:
        for c in [(True, False, None), (False, True, None), (True, True, 50)]:
            out.append((f"whole-{m[0]}-{c}", whole, (m, c)))
    out.append(("revisit", revisit, (small, 0, 2)))
    return out
