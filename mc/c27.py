"""C27: formatting choices do what they say and nothing else."""
from c13 import *
import c13

BOUNDS = {"quick": "all lists of <=2 ranges of Bible W and of 3 of its kinds of range, in every grouping, all their ranges and verses, and 5-7 kinds of range of every book of the real Bible in pairs with each other and the next book's: the 4 base forms (groups kept or "
                   "not, start verses forced or not) judged item by item, and from each the 8 forms of names x separator x blanks derived; the displayed (repr) forms; 4 option settings",
          "thorough": "as quick with 3 of up to 32 kinds of range, 2 of all and 3 of 27 ranges of Bible A, and all 4 option settings for the real Bible"}
ASSUMPTIONS = ["names contain no separators", "the default separators and names; others are related to these by C12, C13 and C20"]
SEP = re.compile("[;,]")


def variants(k, fn, base, what, titles, **info):
    """The forms with other names, separators and blanks are the base form with just those replaced."""
    d = bible_data()
    pat = re.compile("|".join(re.escape(t) for t in sorted(titles, key=len, reverse=True)))
    for a in (False, True):
        for s in (False, True):
            for n in (False, True):
                want = base
                if a:
                    want = pat.sub(lambda m: titles[m.group()], want)
                if s:
                    want = want.replace(d.verse_sep_std, d.verse_sep_alt)
                if n:
                    want = re.sub(r"\s", "", want)
                k.transitions += 1
                got = fn(**{x: True for x, y in (("abbrev", a), ("alt_sep", s), ("nospace", n)) if y})
                k.eq(got, want, what, abbrev=a, alt_sep=s, nospace=n, base=base, **info)


def sides(item, level, single):
    """Of the text of one item: for its start and end, whether a verse is shown. level: bare numbers are verses here; single: the current book has one chapter."""
    out = []
    for side in item.split("-"):
        side = side.strip()
        m = re.fullmatch(r"(\d?\s*[A-Za-z][A-Za-z ]*?)?\s*(\d+)?(:\d+)?", side)
        if not m:
            return None, level, single
        book, num, verse = m.groups()
        if book is not None:
            single = BibleBook.from_str(book).chap_count() == 1
            level = False
        if verse:
            level = True
        elif book is not None and num:
            level = single
        out.append(bool(verse) or bool(num) and (level or single))
    return out, level, single


def whole(bib, r, opt):
    """single / chapter / book / None: what the range is exactly one of."""
    s, e = r
    if s[0] == e[0]:
        if s == bib.first(s[0], None, opt) and e == bib.last(s[0]):
            return "book"
        if s[1] == e[1] and s == bib.first(s[0], s[1], opt) and e == bib.last(s[0], s[1]):
            return "chapter"
    return "verse" if s == e else None


def starts_chap(bib, r, opt):
    s, e = r
    return s == bib.first(s[0], s[1], opt) and e >= bib.last(s[0], s[1])


def ends_chap(bib, r, opt):
    s, e = r
    return e == bib.last(e[0], e[1]) and s <= bib.first(e[0], e[1], opt)


def items(k, bib, groups, text, opt, keep, force, info):
    flat = [r for g in groups for r in g]
    parts = SEP.split(text) if text else []
    if len(parts) != len(flat):
        return k.fail("the string does not have one item per range", text=text, **info)
    if keep:
        got = [len(x.split(",")) for x in text.split(";")] if text else []
        k.eq(got, [len(g) for g in groups], "the major separator stands between groups and only there", text=text, **info)
    level = single = False
    pos = 0
    majors = [None] + [c for c in text if c in ";,"]
    for r, item, sep in zip(flat, parts, majors):
        if sep == ";":
            level = False
        before = level
        sh, level, single = sides(item, level, single)
        if sh is None or len(sh) > 2:
            k.fail("an item is not a reference", text=text, item=item, **info)
            return
        w = whole(bib, r, opt)
        if w is None:
            if len(sh) != 2:
                k.fail("a range is written as a single reference", text=text, item=item, range=bib.s(r), **info)
        elif len(sh) != 1 and (not keep or sep != "," or not starts_chap(bib, r, opt) or w == "book"):
            k.fail("a single reference is written as a range", text=text, item=item, range=bib.s(r), kind=w, **info)
        if force and len(sh) == 2 and sh[1] and not ends_chap(bib, r, opt) and not sh[0]:
            k.fail("the end verse is shown but not the start verse", text=text, item=item, range=bib.s(r), **info)
        if not starts_chap(bib, r, opt) and not sh[0]:
            k.fail("the start verse is not shown", text=text, item=item, range=bib.s(r), **info)
        if starts_chap(bib, r, opt) and sh[0] and sep != "," and not (force and not ends_chap(bib, r, opt)) and w != "verse" :
            k.fail("the start verse is shown without need", text=text, item=item, range=bib.s(r), **info)


def shown(k, l, info):
    """The displayed form names the type and holds the string."""
    k.eq(repr(l), f'BibleRangeList("{l}")', "the displayed list", **info)
    for r in l:
        k.eq(repr(r), f"BibleRange({r})", "the displayed range", **info)
        if repr(r.start) not in (f"BibleVerse({r.start.str(abbrev=True)})", f"BibleVerse({r.start})"):
            k.fail("the displayed verse", got=repr(r.start), **info)
    for g in l.groups:
        k.eq((repr(g), str(g)), (f"GroupView({list(g)})", str(list(g))), "the displayed group", **info)
    k.eq((repr(l.groups), str(l.groups)), (f"GroupViews({list(l.groups)})", str(list(l.groups))), "the displayed groups", **info)


def judge(k, bib, groups, l, mode, kw, titles):
    opt = mode[0]
    shown(k, l, dict(list=bib.s(groups), mode=mode))
    for keep in (True, False):
        for force in (False, True):
            o = {x: y for x, y, z in (("preserve_groups", keep, True), ("force_start_verses", force, False)) if y != z}
            text = l.str(**o, **kw)
            k.transitions += 1
            info = dict(list=bib.s(groups), mode=mode, keep=keep, force=force)
            items(k, bib, groups, text, opt, keep, force, info)
            variants(k, lambda **f: l.str(**f, **o, **kw), text, "the list's string changes by more or less than the choice", titles, **info)
            if len(groups) == 1 and len(groups[0]) == 1:
                r = bib.R(groups[0][0])
                o.pop("preserve_groups", None)
                k.eq(r.str(**o, **kw), text, "a range reads differently alone and in a list", **info)
                variants(k, lambda **f: r.str(**f, **o, **kw), text, "the range's string changes by more or less than the choice", titles, **info)
                s, e = groups[0][0]
                if s == e and whole(bib, (s, e), opt) == "verse":
                    v = bib.V(s)
                    k.eq(v.str(), text, "a verse reads differently alone and as a range", **info)
                    variants(k, lambda **f: v.str(**f), text, "the verse's string changes by more or less than the choice", titles, **info)


def explore(k, bib, gen, lo, hi, modes, shard, n):
    bib.install()
    titles = {b.title: b.abbrev for b in bib.enum}
    for mode in modes:
        kw = set_mode(mode); opt = mode[0]
        rs = bib.ranges(opt, multi="M" in opt) if gen is None else gen(bib, opt)
        objs = {r: bib.R(r) for r in rs}
        i = 0
        for ln in range(lo, hi + 1):
            for seq in itertools.product(rs, repeat=ln):
                i += 1
                if i % n != shard:
                    continue
                for sizes in set_partitions_seq(ln):
                    g = nest(list(seq), sizes)
                    l = BibleRangeList()
                    for gr in g:
                        l.append_group([objs[r] for r in gr])
                    k.states += 1
                    k.traces += 1
                    k.case = (bib.name, g, mode)
                    judge(k, bib, g, l, mode, kw, titles)
    k.sample({"bible": bib.name, "list": bib.s(g), "text": l.str(**kw), "mode": str(mode)})


def bounds(bib, opt):
    """One range per kind of start, kind of end and distance."""
    out, seen = [], set()
    for r in bib.ranges(opt, multi="M" in opt):
        s, e = r
        key = (starts_chap(bib, r, opt), ends_chap(bib, r, opt), whole(bib, r, opt), e[0] - s[0], e[1] != s[1], s[2] == 0)
        if key not in seen:
            seen.add(key)
            out.append(r)
    return out


def kinds(bib, opt):
    return bounds(bib, opt)[::2]


def real(k, modes, shard, n):
    """The real Bible's books: all pairs of six ranges of each book and of those and the next book's, in one group and in two."""
    bib = REAL
    bib.install()
    titles = {b.title: b.abbrev for b in bib.enum}
    for mode in modes:
        kw = set_mode(mode); opt = mode[0]

        def of(b):
            f, l = bib.first(b, None, opt), bib.last(b)
            c = bib.nch(b)
            out = [(f, l), (f, bib.last(b, 1)), (l, l), ((b, 1, 1), (b, c, 1)), (bib.first(b, c, opt), l)]
            if "M" in opt and b + 1 < bib.n:
                out += [(f, (b + 1, 1, 1)), ((b, c, 2 if l[2] > 1 else 1), bib.last(b + 1))]
            return list(dict.fromkeys(out))

        for b in range(bib.n):
            if b % n != shard:
                continue
            for x in of(b):
                for y in of(b) + (of(b + 1)[:4] if b + 1 < bib.n else of(0)[:4]):
                    for g in ([[x, y]], [[x], [y]]):
                        k.states += 1
                        k.traces += 1
                        k.case = (g, mode)
                        judge(k, bib, g, bib.L(g), mode, kw, titles)
                g = [[x]]
                k.case = (g, mode)
                judge(k, bib, g, bib.L(g), mode, kw, titles)
    k.sample({"last": bib.s(g)})


def jobs(tier):
    four = [("", "global"), ("Z", "arg"), ("M", "arg"), ("MZ", "global")]
    out = shards("W2", explore, (W, None, 0, 2, four), 24)
    out += shards("W3", explore, (W, kinds, 3, 3, [("", "arg"), ("MZ", "global")]), 24)
    out += shards("real", real, ([("", "arg"), ("MZ", "global")],), 22)
    if tier == "thorough":
        out += shards("real-all", real, ([("Z", "arg"), ("M", "arg")],), 66)
        out += shards("W3-all", explore, (W, bounds, 3, 3, four), 128)
        out += shards("A2", explore, (A, None, 0, 2, four), 64)
        out += shards("A3", explore, (A, reps, 3, 3, four), 128)
    return out
