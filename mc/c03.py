"""C03: every way of building a range."""
from model import *

BOUNDS = {"quick": "small Bible A (and D): all 6-part positional argument lists over its books/None, chapters None,0..max+1, "
                   "verses None,0..3, all trailing-None trimmings, 8 option modes (interleaved); all start/end pairs; malformed arguments; real Bible: all ordered chapter pairs of 6 books, all ordered book pairs" '; every string of <= 2 ranges as the only argument (one range is taken, two are refused); alternating data sets',
          "thorough": "additionally Bibles C, E, books given by name, chapter pairs of every book"}
ASSUMPTIONS = ["a range is (first verse named by the start parts, last verse named by the end parts), the two references "
               "being swapped as a whole when the second lies entirely before the first; an end verse without end chapter "
               "inherits the start chapter (first chapter if none)"]


def region(bib, b, c, v, opt):
    """(first, last) verse of the named verse/chapter/book or None if it does not exist."""
    if c is None:
        return (bib.first(b, None, opt), bib.last(b))
    if not 1 <= c <= bib.nch(b):
        return None
    if v is None:
        return (bib.first(b, c, opt), bib.last(b, c))
    return ((b, c, v), (b, c, v)) if bib.exists((b, c, v), opt) else None


def expected(bib, args, opt):
    """('range', (s, e)) or ('err', set of acceptable exception classes)"""
    sb, sc, sv, eb, ec, ev = args
    INV, MUL = InvalidReferenceError, MultibookRangeNotAllowedError
    if sb is None or (sc is None and sv is not None):
        return ("err", (INV,))
    first = region(bib, sb, sc, sv, opt)
    have_end = not (eb is None and ec is None and ev is None)
    b2 = sb if eb is None else eb
    if not have_end:
        return ("range", first) if first else ("err", (INV,))
    multi = b2 != sb and "M" not in opt
    if ec is None and ev is not None:
        if b2 != sb:
            return ("err", (INV, MUL) if multi else (INV,))
        c2 = sc if sc is not None else 1
    else:
        c2 = ec
    second = region(bib, b2, c2, ev, opt)
    if first is None or second is None:
        return ("err", (INV, MUL) if multi else (INV,))
    if multi:
        return ("err", (MUL,))
    if second[1] < first[0]:
        first, second = second, first
    return ("range", (first[0], second[1]))


def judge(k, bib, fn, want, what, **d):
    k.transitions += 1
    try:
        r = fn()
    except Exception as e:
        if want[0] == "range" or not isinstance(e, want[1]):
            k.fail(what + ": raised", got=e, want=bib.s(want[1]) if want[0] == "range" else want, **d)
        return
    g = bib.tr(r)
    if want[0] != "range":
        k.fail(what + ": accepted", got=bib.s(g), want=want, **d)
    elif g != want[1]:
        k.fail(what, got=bib.s(g), want=bib.s(want[1]), **d)


def positional(k, bib, names, modes, shard, n):
    bib.install()
    mc = max(bib.nch(b) for b in range(bib.n))
    mv = max(max(m) for m in bib.maxv)
    chaps = [None, 0] + list(range(1, mc + 2))
    verses = [None, -1, 0] + list(range(1, mv + 2))
    books = [None] + list(range(bib.n))
    conv = (lambda b: None if b is None else bib.enum[b].title) if names else (lambda b: None if b is None else bib.enum[b])
    i = 0
    for sb, sc, sv in itertools.product(books, chaps, verses):
        for eb, ec, ev in itertools.product(books, chaps, verses):
            i += 1
            if i % n != shard:
                continue
            k.states += 1
            args = (sb, sc, sv, eb, ec, ev)
            for mode in modes: # innermost, so that nothing can be remembered without its options
                k.case = (bib.name, args, mode)
                want = expected(bib, args, mode[0])
                kw = set_mode(mode)
                call_args = [conv(sb), sc, sv, conv(eb), ec, ev]
                judge(k, bib, lambda: BibleRange(*call_args, **kw), want, "positional", args=str(args), mode=mode, bible=bib.name)
                # trailing Nones can be left out
                while len(call_args) > 1 and call_args[-1] is None:
                    call_args.pop()
                    if len(call_args) == 1 and (call_args[0] is None or names):
                        break
                    judge(k, bib, lambda: BibleRange(*call_args, **kw), want, "positional (trimmed)", args=str(args),
                          nargs=len(call_args), mode=mode, bible=bib.name)
                k.traces += 1
    k.sample(f"{bib.name}: BibleRange{args} under {mode} -> {want[0]}")


def endpoints(k, bib):
    bib.install()
    for mode in MODES:
        kw = set_mode(mode); opt = mode[0]
        u = bib.uni(opt)
        for s in u:
            for e in u:
                k.states += 1
                k.case = (bib.name, s, e, mode)
                if s[0] != e[0] and "M" not in opt:
                    want = ("err", (MultibookRangeNotAllowedError,))
                else:
                    want = ("range", (min(s, e), max(s, e)))
                vs, ve = bib.V(s), bib.V(e)
                judge(k, bib, lambda: BibleRange(start=vs, end=ve, **kw), want, "start/end", s=bib.s(s), e=bib.s(e), mode=mode)
                r = bib.R((s, e))
                judge(k, bib, lambda: BibleRange(r, **kw), ("range", (min(s, e), max(s, e))), "copy", s=bib.s(s), e=bib.s(e), mode=mode)
                k.traces += 1
        for b in range(bib.n):
            judge(k, bib, lambda: BibleRange(bib.enum[b], **kw), ("range", (bib.first(b, None, opt), bib.last(b))), "book", b=b, mode=mode)
            judge(k, bib, lambda: BibleRange(bib.enum[b].title, **kw), ("range", (bib.first(b, None, opt), bib.last(b))), "title", b=b, mode=mode)


def malformed(k):
    A.install()
    v = A.V((0, 1, 1))
    g = BibleBook.Gen
    for mode in MODES:
        kw = set_mode(mode)
        for args, kws in [((), {}), ((), {"start": v}), ((), {"end": v}), ((), {"start": v, "end": "Gen 1:2"}),
                          ((), {"start": 5, "end": v}), ((g, 1, 1, g, 1, 2, 3), {}), ((g, 1, 1, g, 1, 2, None), {}),
                          ((5,), {}), ((None,), {}), ((v,), {}), (([],), {})]:
            k.states += 1
            k.case = (args, kws)
            judge(k, A, lambda: BibleRange(*args, **kws, **kw), ("err", (ValueError,)), "malformed", args=args, kws=kws, mode=mode)
            k.traces += 1
        for args in [("Foo",), ("Foo", 1), (g, 1, 1, "Foo", 1, 1), (None, 1), (None, None, None, g)]:
            judge(k, A, lambda: BibleRange(*args, **kw), ("err", (BibleRefException,)), "unknown book", args=args, mode=mode)


def strings(k, bib):
    """A string is taken as a range (or verse) exactly when it names exactly one: never several, however they are related."""
    bib.install()
    for mode in MODES:
        kw = set_mode(mode); opt = mode[0]
        rs = bib.ranges(opt, multi="M" in opt)
        if len(rs) > 40:
            rs = [r for r in rs if r[0] == r[1]] + rs[::5]
        texts = [(r, bib.R(r).str(force_start_verses=True, **kw)) for r in rs]
        for r, t in texts:
            k.states += 1
            k.case = (bib.name, t, mode)
            judge(k, bib, lambda: BibleRange(t, **kw), ("range", r), "string", text=t, mode=mode, bible=bib.name)
            x = call(BibleVerse, t, **kw)
            k.transitions += 1
            if (x[0] == "ok") != (r[0] == r[1]) or (x[0] == "ok" and bib.tv(x[1]) != r[0]) or (x[0] != "ok" and not isinstance(x[2], InvalidReferenceError)):
                k.fail("string as a verse", text=t, got=x[1], mode=mode, bible=bib.name)
            for r2, t2 in texts:
                for sep in ("; ", ", "):
                    both = t + sep + t2
                    k.case = (bib.name, both, mode)
                    judge(k, bib, lambda: BibleRange(both, **kw), ("err", (InvalidReferenceError,)), "string naming two ranges", text=both, mode=mode, bible=bib.name)
                    if r[0] == r[1] == r2[0] == r2[1]:
                        x = call(BibleVerse, both, **kw)
                        k.transitions += 1
                        if x[0] == "ok" or not isinstance(x[2], InvalidReferenceError):
                            k.fail("string naming two verses", text=both, got=x[1], mode=mode, bible=bib.name)
            k.traces += 1


def real(k, shard, n):
    """Every chapter and book of the real Bible, and reversed/adjacent chapter pairs."""
    bib = REAL
    for mode in MODES:
        kw = set_mode(mode); opt = mode[0]
        for b in range(bib.n):
            if b % n != shard:
                continue
            e = bib.enum[b]
            for c in range(1, bib.nch(b) + 1):
                k.states += 1
                k.case = (b, c, mode)
                lv = bib.maxv[b][c - 1]
                for args in [(b, c, None, None, None, None), (b, c, None, None, None, lv), (b, c, lv, None, None, 1),
                             (b, c, 1, None, c, None), (b, None, None, None, c, None), (b, c, None, b, None, None),
                             (b, c, 1, b, max(1, c - 1), 1), (b, c, None, None, max(1, c - 1), None),
                             (b, c, lv, (b + 1) % bib.n, 1, 1), (b, c, lv + 1, None, None, None), (b, c, 0, None, None, None)]:
                    ca = [None if a is None else (bib.enum[a] if i in (0, 3) else a) for i, a in enumerate(args)]
                    judge(k, bib, lambda: BibleRange(*ca, **kw), expected(bib, args, opt), "positional", args=str(args), mode=mode)
                k.traces += 1


def chapter_pairs(k, tier, shard, n):
    """All ordered pairs of chapters of a real book, as chapters and as verses; all ordered pairs of real books."""
    bib = REAL
    books = range(bib.n) if tier == "thorough" else (0, 7, 18, 22, 30, 65)
    i = 0
    for b in books:
        for c1 in range(1, bib.nch(b) + 1):
            for c2 in range(1, bib.nch(b) + 1):
                i += 1
                if i % n != shard:
                    continue
                k.states += 1
                m1, m2 = bib.maxv[b][c1 - 1], bib.maxv[b][c2 - 1]
                for args in [(b, c1, None, None, c2, None), (b, c1, m1, b, c2, 1), (b, c1, 1, None, c2, m2), (b, c1, None, b, c2, m2),
                             (b, c1, min(2, m1), None, c2, None)]:
                    for mode in (("", "global"), ("Z", "arg")):
                        kw = set_mode(mode)
                        k.case = (args, mode)
                        ca = [None if a is None else (bib.enum[a] if j in (0, 3) else a) for j, a in enumerate(args)]
                        judge(k, bib, lambda: BibleRange(*ca, **kw), expected(bib, args, mode[0]), "positional", args=str(args), mode=mode)
                k.traces += 1
    for b1 in range(bib.n):
        for b2 in range(bib.n):
            i += 1
            if i % n != shard:
                continue
            k.states += 1
            n1, n2 = bib.nch(b1), bib.nch(b2)
            for args in [(b1, None, None, b2, None, None), (b1, n1, None, b2, n2, None), (b1, 1, 1, b2, 1, 1), (b1, n1, 1, b2, 1, None),
                         (b1, None, None, b2, n2, 1), (b1, 1, None, b2, None, None)]:
                for mode in (("M", "global"), ("", "arg"), ("MZ", "arg")):
                    kw = set_mode(mode)
                    k.case = (args, mode)
                    ca = [None if a is None else (bib.enum[a] if j in (0, 3) else a) for j, a in enumerate(args)]
                    judge(k, bib, lambda: BibleRange(*ca, **kw), expected(bib, args, mode[0]), "positional", args=str(args), mode=mode)
            k.traces += 1


def jobs(tier):
    out = [("malformed", malformed, ())]
    bibs = [(D, False), (A, False)] if tier == "quick" else [(D, False), (A, False), (C, False), (E, True), (A, True)]
    for bib, names in bibs:
        modes = MODES if (tier == "thorough" or bib is D) else MODES[1::3] + MODES[:1]
        out += shards(f"pos-{bib.name}-{'n' if names else 'e'}", positional, (bib, names, modes), 16)
    out += shards("chapter-pairs", chapter_pairs, (tier,), 16)
    out += [("endpoints-" + b.name, endpoints, (b,)) for b in (A, D, C)]
    out += shards("real", real, (), 8) + [("strings-" + b.name, strings, (b,)) for b in (C, T)]
    out += [("revisit", revisit, (endpoints,)), ("revisit-pos", revisit, (positional, False, MODES[:4], 0, 3))]
    return out
