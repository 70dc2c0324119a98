"""C19: book names - every text of the enumerated languages resolves to exactly the book the explicit oracle names, or to none."""
from model import *
import names, string

BOUNDS = {"quick": "every title, abbreviation, alternative and title prefix x 6 letter-case patterns x 6 spacings x arabic/roman prefixes; "
                   "all letter strings of length <= 3 with 10 numeric prefixes and of length 4 without; all one-character edits of every name; "
                   "all name forms while each book is left out, alone, or paired with a similarly named one; "
                   "14 other name tables (accents, other scripts, one letter, digits and symbols inside, overlapping names): every form and one-character edit; every character of Unicode's basic plane at 9 places",
          "thorough": "as quick, plus all letter strings of length 4 with every numeric prefix and all two-character edits of abbreviations and titles <= 8 letters"}
ASSUMPTIONS = ["letters whose case folding is one to one"]
AB = string.ascii_lowercase
N = GOLDEN["names"]


def expect(text):
    r = names.resolve(text)
    return BibleBook[min(r)] if len(r) == 1 else None if not r else ("ambiguous", sorted(r))


def probe(k, text, want, full=False):
    k.case = text
    k.states += 1
    k.traces += 1
    got = BibleBook.from_str(text)
    k.eq(got, want, "book name resolution", text=text)
    if full:
        r = call(BibleBook.from_str, text, raise_error=True)
        if want is None:
            if r[0] != "exc" or r[1] != "InvalidReferenceError":
                k.fail("no invalid-reference error for an unknown name", text=text, got=r)
        else:
            k.eq(r, ("ok", want), "book name resolution (raise_error)", text=text)
        r2 = call(BibleVerse, text, 1, 1)
        r3 = call(BibleRange, text, 1)
        if want is None:
            if r2[0] != "exc" or r2[1] != "InvalidReferenceError" or r3[0] != "exc" or r3[1] != "InvalidReferenceError":
                k.fail("reference with an unknown book name", text=text, got=(r2, r3))
        else:
            k.eq(r2[1] if r2[0] != "ok" else r2[1].book, want, "verse by book name", text=text)
            k.eq(r3[1] if r3[0] != "ok" else r3[1].start.book, want, "range by book name", text=text)
        k.transitions += 3


CASES = [str, str.lower, str.upper, str.title, str.swapcase,
         lambda s: "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(s))]
GAPS = [" ", "", "  ", "\t", " \n ", "    "]
AROUND = [("", ""), (" ", ""), ("", "  "), ("\t", "\n")]


def valid(k, shard, n):
    for i, (b, (abb, title, minc, extras)) in enumerate(sorted(N.items())):
        if i % n != shard:
            continue
        forms = {abb, title, *extras}
        num = title[:2] if title[:2] in ("1 ", "2 ", "3 ") else ""
        rest = title[len(num):]
        romans = []
        for j in range(minc, len(rest) + 1):
            forms.add(num + rest[:j])
            if num:
                romans.append(names.ROMAN[num[0]] + "@" + rest[:j])
        for f in sorted(forms) + romans:
            for cs in CASES:
                for gap in GAPS:
                    t = cs(f)
                    if "@" in t:
                        if gap == "":
                            continue
                        t = t.replace("@", gap)
                    t = t.replace(" ", gap) if gap != " " else t
                    for l, r in AROUND:
                        probe(k, l + t + r, BibleBook[b], full=(l == r == ""))
                        if not (" " in t or gap.strip(" ")):
                            pass
                    if set(gap) <= {" "}:
                        x = call(BibleRangeList, t.strip() + " 1")
                        k.transitions += 1
                        if x[0] != "ok" or x[1][0].start.book is not BibleBook[b]:
                            k.fail("book name in a reference", text=t + " 1", got=x)
        # shorter prefixes are no names unless the rules name them otherwise
        for j in range(0, minc):
            probe(k, num + rest[:j], expect(num + rest[:j]), full=True)
    # the oracle itself must be unambiguous on these
    k.sample(f"{title}: {len(forms)} forms")


PFX = ["1", "2", "3", "1 ", "2 ", "3 ", "I ", "II ", "III ", "i  ", "I", "II", "III", "0", "4", "4 ", "IV ", "1st ", "11"]


def words(k, m, pfx, shard, n):
    heads = AB[shard::n]
    for h in heads:
        for t in itertools.product(AB, repeat=m - 1):
            w = h + "".join(t)
            for p in pfx:
                probe(k, p + w, expect(p + w))
    k.sample(f"{p + w!r}")


EXTRA = AB + "0123. -:'"


def edits(s):
    for i in range(len(s) + 1):
        if i < len(s):
            yield s[:i] + s[i + 1:]
            for c in EXTRA:
                yield s[:i] + c + s[i + 1:]
            if i + 1 < len(s):
                yield s[:i] + s[i + 1] + s[i] + s[i + 2:]
        for c in EXTRA:
            yield s[:i] + c + s[i:]


def mutants(k, depth, shard, n):
    seen = set()
    for i, (b, (abb, title, minc, extras)) in enumerate(sorted(N.items())):
        if i % n != shard:
            continue
        for f in {abb, title, *extras}:
            f = f.lower()
            if depth == 1:
                for e in edits(f):
                    if e not in seen:
                        seen.add(e)
                        probe(k, e, expect(e), full=(len(seen) % 10 == 0))
            elif len(f) <= 8:
                for e in set(edits(f)):
                    for e2 in edits(e):
                        if e2 not in seen:
                            seen.add(e2)
                            probe(k, e2, expect(e2))
    k.sample(f"{len(seen)} edited names")


def name_forms():
    """All names of all books: abbreviation, title, extras, every title prefix from one letter on, arabic and roman numerals."""
    out = set()
    for b, (abb, title, minc, extras) in N.items():
        num = title[:2] if title[:2] in ("1 ", "2 ", "3 ") else ""
        rest = title[len(num):]
        out |= {abb, *extras}
        for j in range(1, len(rest) + 1):
            if j <= minc + 1 or j == len(rest):
                out.add(num + rest[:j])
                if num:
                    out.add(names.ROMAN[num[0]].upper() + " " + rest[:j])
                    out.add(num[0] + rest[:j])
    return sorted(out)


def reduced(k, what, shard, n):
    """The same names while only some of the books have names: each book left out, each book alone, each pair of related books."""
    d = bible_data()
    whole = dict(d.name_data)
    if what == "leave one out":
        sets_ = [[x for x in whole if x is not b] for b in whole]
    elif what == "one book":
        sets_ = [[b] for b in whole]
    elif what == "reversed":
        sets_ = [list(whole)[::-1], sorted(whole, key=lambda b: b.name), sorted(whole, key=lambda b: b.name[::-1])]
    else:
        rel = [b for b in whole if whole[b][1][:1] in "123" or b.name in ("John", "Jude", "Phil", "Phlm", "Judg", "Jonah", "Joel", "Josh", "Job")]
        sets_ = [[a, b] for a in rel for b in rel if a is not b]
    forms = name_forms()
    for i, keep in enumerate(sets_):
        if i % n != shard:
            continue
        d.name_data = {b: whole[b] for b in keep}
        some = {b.name: N[b.name] for b in keep}
        for t in forms if what != "pairs" else forms[i % 7::7]:
            r = names.resolve(t, some)
            k.case = (what, [b.name for b in keep][:4], t)
            k.states += 1
            k.eq(BibleBook.from_str(t), BibleBook[min(r)] if r else None, "book name resolution with some of the names", text=t,
                 names=f"{what}: {[b.name for b in keep][:3]}")
        k.traces += 1
    d.name_data = whole
    for t in forms:
        k.eq(BibleBook.from_str(t), expect(t), "book name resolution after restoring the names", text=t)
    k.sample({"what": what, "forms": len(forms)})


def odd(k):
    for t in ["", " ", "1", "2", "3", "I", "II", "III", "1 ", "I ", "0", "Foo", "Gen 1", "Genesis Exodus", "GenExod", "Gen|Exod", "G.n", "Ge.*",
              "(Gen)", "Ge(n)", ".", "*", "[A-Z]+", "Gen\x00", "Gen;", "Gen-", "Gen:1", "Song of", "Songof", "So ng", "Song  of   Songs", "1  1 John",
              "I I John", "11 John", "1  John", "1\tJohn", "IJohn", "IIJohn", "IIIJohn", "ISam", "IISam", "1-John", "First John", "The Revelation to",
              "The", "Rev to John", "Revelation to John", "Philippi ans", "Sam", "Kings", "Corinthians", "Peter", "Thessalonians", "Timothy", "4 Kings"]:
        probe(k, t, expect(t), full=True)


def other_tables(k, name):
    """Every form, spelling and one-character edit of the names of another name table."""
    import tables
    d = bible_data()
    whole = d.name_data
    t = tables.table(name)
    d.name_data = t
    forms = set()
    for b, (abb, title, minc, extras) in t.items():
        num = title[:2] if title[:2] in ("1 ", "2 ", "3 ") else ""
        forms |= {abb, *extras} | {num + title[len(num):][:j] for j in range(1, len(title) - len(num) + 1)}
        if num:
            forms |= {names.ROMAN[num[0]].upper() + " " + title[2:][:j] for j in range(1, len(title) - 1)}
        k.eq((b.abbrev, b.title), (abb, title), "abbreviation and title of a book", names=name)
    texts = {l + cs(f).replace(" ", gap) + r for f in forms for cs in CASES for gap in GAPS for l, r in AROUND}
    texts |= set(name_forms())
    alpha = sorted(set("".join(forms)) | set("aZ1 .*+?()[]{}|^$\\-\n"))
    for f in forms:
        for i in range(len(f) + 1):
            texts |= {f[:i] + c + f[i:] for c in alpha} | {f[:i] + c + f[i + 1:] for c in alpha} | {f[:i] + f[i + 1:]}
    texts |= {x + f for f in forms for x in PFX}
    for x in sorted(texts):
        k.case = (name, x)
        k.states += 1
        want = tables.resolve(name, x)
        k.eq(BibleBook.from_str(x), want, "book name resolution with another name table", text=x, names=name)
        if want is None and k.states % 20 == 0:
            r = call(BibleBook.from_str, x, raise_error=True)
            if r[0] != "exc" or r[1] != "InvalidReferenceError":
                k.fail("no invalid-reference error for an unknown name", text=x, got=r)
    k.traces += len(texts)
    d.name_data = whole
    for f in name_forms():
        k.eq(BibleBook.from_str(f), expect(f), "book name resolution after restoring the names", text=f)
    k.sample({"names": name, "texts": len(texts)})


def characters(k, lo, hi):
    """Every character at five places of a name: only other spellings of the same letter, or blanks, are accepted."""
    fold = lambda t: "".join(" " if c.isspace() else c.casefold() if len(c.casefold()) == 1 else c for c in t)
    for n in list(range(lo, hi)) + ([0x10400, 0x1d7ce, 0x1d404, 0x1f4d6, 0x10ffff] if lo == 0 else []):
        c = chr(n)
        if n in (0x130, 0x131):      # dotted and dotless i: not one-to-one
            continue
        for t in (c, c + "Gen", "Gen" + c, "Ge" + c + "n", "Gene" + c, "1" + c + "John", "I" + c + "John", "Son" + c, "Song of" + c + "ongs"):
            k.case = (hex(n), t)
            k.states += 1
            r = names.resolve(fold(t))
            k.eq(BibleBook.from_str(t), BibleBook[min(r)] if r else None, "book name resolution", text=t, code=hex(n))
    k.traces += hi - lo
    k.sample({"from": hex(lo), "to": hex(hi)})


def jobs(tier):
    out = [("odd", odd, ())] + shards("valid", valid, (), 8) + shards("mutants", mutants, (1,), 8)
    for m in (1, 2, 3):
        out += shards(f"words{m}", words, (m, ["", *PFX]) if m < 3 else (m, ["", *PFX[:9]]), 1 if m < 3 else 8)
    out += shards("words4", words, (4, [""]), 8)
    for what, m in (("leave one out", 8), ("one book", 4), ("pairs", 8), ("reversed", 1)):
        out += shards(what, reduced, (what,), m)
    out += [(f"characters {x:x}", characters, (x << 13, (x + 1) << 13)) for x in range(8)]
    import tables
    out += [("names: " + t, other_tables, (t,)) for t in tables.BY_NAME]
    if tier == "thorough":
        out += shards("words4p", words, (4, PFX), 26)
        out += shards("mutants2", mutants, (2,), 33)
    return out
