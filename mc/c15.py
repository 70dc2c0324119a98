"""C15: the meaning of every string, against the reference interpreter."""
from interp import *

P = Bible("P", [("Gen", [2, 3], ()), ("Obad", [2], ()), ("Psa", [1, 2], {2}), ("IJn", [2, 2], ())])
BOUNDS = {"quick": "every token sequence of length <=4 over 13 tokens (and of length 5 with a viable prefix), every string of <=5 characters over "
                   "7 digits/separators after a book, all double references over 39 single forms, all lists of 3 over 15 forms, "
                   "double-then-single lists, spacing variants, option modes; every digit string of <=5 over 0/1/2 and long ones in 3 places, every number 0-204 in 13 forms "
                   "over the real Bible, lists of up to 150 references; texts of up to 1500 references; every assigned character of Unicode's basic plane but ideographs in 9 places",
          "thorough": "token sequences of length <=6 with viable prefixes, strings of <=6 characters, all lists of 2 double references over 15 forms, all 8 modes; every character of the basic plane"}
ASSUMPTIONS = ["when several references are wrong the first one is reported",
               "the first unexpected character is the first one at which none of the tokens that may stand there begins; where a name runs into a strange or non-ASCII character, only that the error lies inside the text is checked"]


def outcome(bib, text, kw):
    try:
        l = BibleRangeList(text, **kw)
    except BibleRefParsingError as e:
        return ("perr", e.start_pos, e.end_pos)
    except Exception as e:
        return ("other error", type(e).__name__, str(e)[:80])
    return ("ok", bib.tn(l), l)


NAME2 = NAME
STEP = {("start", "B"): "B", ("first", "B"): "B", ("start", "N"): "N", ("first", "N"): "N", ("B", "N"): "N", ("N", "V"): "V", ("V", "N"): "CV"}
VAGUE = re.compile(r"\w\s*[^0-9A-Za-z\s:.;,\-]|[^\x00-\x7f]")      # is a strange character part of the name before it?


def unexpected(text):
    """The first character (as a span) at which a token is expected and none that may stand there begins: the furthest such place over all
    readings of the text; the empty span at its end if it stops too early; None when it is well-formed."""
    todo, seen, far, ok = [(0, "start", False)], set(), 0, False
    while todo:
        st = todo.pop()
        if st in seen:
            continue
        seen.add(st)
        i, pos, dual = st
        m = WSP.match(text, i)
        if m:
            i = m.end()
        far = max(far, i)
        if i == len(text):
            ok = ok or pos in ("B", "N", "CV", "first")
            continue
        for t, m in (("B", NAME2.match(text, i)), ("N", NUM.match(text, i))):
            if m and (pos, t) in STEP:
                todo.append((m.end(), STEP[pos, t], dual))
        t = KIND.get(text[i])
        if t == "V" and pos == "N":
            todo.append((i + 1, "V", dual))
        elif t == "R" and pos in ("B", "N", "CV") and not dual:
            todo.append((i + 1, "start", True))
        elif t in (";", ",") and pos in ("B", "N", "CV"):
            todo.append((i + 1, "first", False))
    return None if ok else (far, min(far + 1, len(text)))


def judge(k, bib, text, mode, kw, verse_range=False):
    k.case = (text, mode)
    k.states += 1
    k.transitions += 1
    want = interpret(bib, text, mode[0])
    got = outcome(bib, text, kw)
    d = dict(text=text, mode=mode, bible=bib.name)
    if want[0] == "ok":
        if got[0] != "ok":
            k.fail("a well-formed string was refused", got=got, want=bib.s(want[1]), **d)
        elif got[1] != want[1]:
            k.fail("wrong meaning", got=bib.s(got[1]), want=bib.s(want[1]), **d)
        elif len(got[2]) != sum(map(len, want[1])) or bib.tl(reversed(got[2])) != [r for g in want[1] for r in g][::-1]:
            k.fail("inconsistent parsed list", **d)
    elif got[0] == "ok":
        k.fail("accepted", got=bib.s(got[1]), want=want, **d)
    elif got[0] == "other error":
        k.fail("not a parsing error", got=got[1:], **d)
    else:
        s, e = got[1:]
        if type(s) is not int or type(e) is not int or not 0 <= s <= e <= len(text):
            k.fail("error position outside the string", got=(s, e), length=len(text), **d)
        elif want[0] == "ref" and (s, e) != want[1:]:
            k.fail("error does not cover the reference at fault", got=text[s:e], want=text[want[1]:want[2]], **d)
        elif want[0] == "syntax" and not VAGUE.search(text):
            u = unexpected(text) or want[1:]
            if u != (s, e):
                k.fail("error is not at the first unexpected text", got=(s, e), want=u, **d)
    k.traces += 1
    if verse_range:
        for cls in (BibleVerse, BibleRange):
            k.transitions += 1
            r = call(cls, text, **kw)
            if want[0] != "ok":
                if r[0] == "ok" or not isinstance(r[2], BibleRefParsingError):
                    k.fail(cls.__name__ + " of a bad string", got=r[:2], **d)
                continue
            rs = [x for g in want[1] for x in g]
            single = len(rs) == 1 and (cls is BibleRange or rs[0][0] == rs[0][1])
            if single:
                if r[0] != "ok" or (bib.tr(r[1]) if cls is BibleRange else bib.tv(r[1])) != (rs[0] if cls is BibleRange else rs[0][0]):
                    k.fail(cls.__name__ + " of a string", got=r[:2], want=bib.s(rs[0]), **d)
            elif r[0] == "ok" or not isinstance(r[2], InvalidReferenceError):
                k.fail(cls.__name__ + " of a string naming something else", got=r[:2], **d)
    return want[0]


def letters(everything):
    """Characters outside ASCII: all of the basic plane but (in quick) ideographs, syllables and private ones, and a few beyond."""
    import unicodedata
    for n in range(0x80, 0x10000):
        c = chr(n)
        if everything or n in (0x3400, 0x4e00, 0x9fff, 0xac00, 0xd7a3, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000) or \
                not (0x3400 <= n <= 0xd7ff or unicodedata.category(c) in ("Cn", "Co", "Cs")):
            yield c
    for n in (0x10000, 0x10140, 0x1d7ce, 0x1d7ff, 0x1f4d6, 0x1fbf0, 0x20000, 0xe0001, 0x10ffff):
        yield chr(n)


PLACES = ["{}", "Gen{}1", "{}Gen 1", "Gen 1{}2", "Gen {}", "Gen 1:1{}", "Gen 2:{}", "1{}John 1", "Gen 1, {}2; 3"]


def characters(k, everything, shard, n):
    """No character outside ASCII is a digit or a separator: the text is refused, or read as if the character were a blank."""
    REAL.install()
    for i, c in enumerate(letters(everything)):
        if i % n != shard:
            continue
        for p in PLACES if everything or not c.isalpha() else PLACES[i % 2::2]:
            text = p.format(c)
            k.case = text
            k.states += 1
            k.traces += 1
            k.transitions += 1
            got = outcome(REAL, text, {})
            if got[0] == "ok":
                w = interpret(REAL, p.format(" "), "")
                if not c.isspace() or w[0] != "ok" or got[1] != w[1]:
                    k.fail("a character that has no place there was accepted", text=text, code=hex(ord(c)), got=REAL.s(got[1]))
            elif got[0] != "perr" or not 0 <= got[1] <= got[2] <= len(text):
                k.fail("not an error position inside the text", text=text, code=hex(ord(c)), got=got)
    k.sample({"character": hex(ord(c)), "places": PLACES})


TOKS = ["Gen", "Obad", "1 John", "Foo", "1", "2", "3", "0", ":", ".", "-", ";", ","]


def viable(kinds):
    """Can this sequence of token kinds start a well-formed string? (explicit automaton of the grammar)"""
    # states: where we are inside a reference; set of (position in single ref, dual already used)
    state = {("start", False)}
    for t in kinds:
        nxt = set()
        for pos, dual in state:
            if t == "B" and pos in ("start", "first"):
                nxt.add(("B", dual))
            elif t == "N" and pos in ("start", "first"):
                nxt.add(("N", dual))
            elif t == "N" and pos == "B":
                nxt.add(("N", dual))
            elif t == "V" and pos == "N":
                nxt.add(("V", dual))
            elif t == "N" and pos == "V":
                nxt.add(("CV", dual))
            elif t == "R" and pos in ("B", "N", "CV") and not dual:
                nxt.add(("start", True))
            elif t in ";," and pos in ("B", "N", "CV"):
                nxt.add(("first", False))
        state = nxt
        if not state:
            return False
    return True


KIND = {":": "V", ".": "V", "-": "R", ";": ";", ",": ","}


def kind(tok):
    return KIND.get(tok) or ("N" if tok.isdigit() else "B")


def token_seqs(k, bib, maxlen, full, modes, shard, n, toks=TOKS):
    """Every token sequence up to `full`; beyond that only those whose proper prefix is viable."""
    bib.install()
    cnt = 0
    for mode in modes:
        kw = set_mode(mode)

        def rec(seq):
            nonlocal cnt
            for t in toks:
                s = seq + [t]
                if len(s) == 2 or (len(s) == 1 and shard == 0):
                    cnt += 1
                if len(s) == 2 and cnt % n != shard:
                    continue
                if len(s) > 1 or shard == 0:
                    texts = {" ".join(s)} if len(s) > 4 else {" ".join(s), "".join(s)}
                    for text in sorted(texts):
                        judge(k, bib, text, mode, kw, verse_range=len(s) <= 3)
                if len(s) < maxlen and (len(s) < full or viable([kind(x) for x in s])):
                    rec(s)
        rec([])
    k.sample({"tokens": maxlen, "modes": str(modes)})


def char_strings(k, bib, prefix, alphabet, maxlen, mode, shard, n):
    bib.install()
    kw = set_mode(mode)
    i = 0
    for ln in range(maxlen + 1):
        for cs in itertools.product(alphabet, repeat=ln):
            i += 1
            if i % n == shard:
                judge(k, bib, prefix + "".join(cs), mode, kw)
    k.sample({"prefix": prefix, "last": "".join(cs)})


def singles(books, nums, chaps):
    out = list(books)
    out += [f"{b} {n}" for b in books for n in nums]
    out += [f"{b} {c}:{v}" for b in books for c in chaps for v in nums]
    out += [f"{c}:{v}" for c in chaps for v in nums]
    out += [str(n) for n in nums]
    return out


S39 = singles(["Gen", "Obad", "Psa"], [1, 2, 3], [1, 2])
S15 = ["Gen", "Obad", "Psa 2", "Gen 2", "Gen 1:2", "Psa 2:0", "Obad 2", "Obad 1:1", "2:1", "1:2", "1", "2", "3", "0", "1 John 2:2"]


def texts(k, bib, gen, modes, shard, n):
    bib.install()
    for mode in modes:
        kw = set_mode(mode)
        for i, t in enumerate(gen()):
            if i % n == shard:
                judge(k, bib, t, mode, kw)
    k.sample({"last": t})


def duals():
    return (f"{a}-{b}" for a in S39 for b in S39)


def context_duals():
    """Double references in the context of an earlier one."""
    return (f"{p}{s} {a}-{b}" for p in ("Gen 1:2", "Psa 2", "Obad 1") for s in ";," for a in S15 for b in S15)


def lists3():
    return (f"{a}{s} {b}{t} {c}" for a in S15 for s in ";," for b in S15 for t in ";," for c in S15)


def dual_then_single():
    return (f"{a}-{b}{s} {c}" for a in S15 for b in S15 for s in ";," for c in ("2", "1:2", "Obad", "Gen 2"))


def dual_dual():
    return (f"{a}-{b}{s} {c}-{d}" for a in S15 for b in S15 for s in ";," for c in S15 for d in S15)


def singles4():
    s = ["Gen 1:2", "Psa 2", "Obad", "2", "1", "1:2", "Gen-Psa"]
    return (f"{a}{x} {b}{y} {c}{z} {d}" for a in s for x in ";," for b in s for y in ";," for c in s for z in ";," for d in s)


def spacing():
    base = [["Gen", "1", ":", "2", "-", "2", ":", "1", ",", "3", ";", "Psa", "2"], ["1 John", "2", ".", "1", "-", "2", ";"], ["Obad", "1", ",", "2"],
            ["Gen", "1", "-", "2", ";", "Obad", "-", "Psa", "1"], ["Foo", "Bar", "1"], ["Gen", "1", ";", "2", "Foo", "Gen", "3"], ["Gen", "1", ",", "Psa", "9", ":", "1"],
            ["Gen", "1", ":", ":"], ["Gen", "1", ",", ":"], ["Gen", "2", "-", "Foo", "Bar", "Psa"], ["Obad", "3", ";"], ["Gen", "-", "3", ":", "1", ",", "2"]]
    for b in base:
        for ws in ("", " ", "  ", "\t", "\n", "\r\n", "\f", " \n\t"):
            yield ws.join(b)
            yield ws + " ".join(b) + ws
            for i in range(1, len(b)):
                yield "".join(b[:i]) + ws + "".join(b[i:])


def odd():
    for t in ["", " ", "\n\t ", ";", ",", "-", ":", "Gen 1;;", "Gen 1,,2", "Gen 1;,2", "; Gen 1", "Gen 1-", "-Gen 1", "Gen 1:2:3", "Gen 1-2-3", "Gen 1::2",
              "Gen 01:002", "Gen 1:2;", "Gen 1:2,", "Gen 1 2", "Gen Obad", "Gen 1 Obad", "Gen!", "Gen 1!", "(Gen 1)", "Gen 1:2a", "Gen 1a", "Gén 1", "Gen _",
              "Gen" + " " * 50 + "1", "gEN 1", "GENESIS 2", "Ge 2", "G 2", "1", "1:1", "Gen 99999999999999999999", "Gen 1:" + "9" * 5000,
              "9" * 5000, "Gen " + "1, " * 60 + "2", "Gen 1:1" + "; 2:1" * 60, "I John 1", "1John1:1", "1  John 1", "II John 1", "Exod 1", "Exod", "Gen-Exod",
              "Gen 1:1–2", "Gen 1:1—2", "Gen１", "Gen 1:²", "\u00a0Gen 1", "Gen\u00a01", "Gen 1\x00", "Gen 1:1\u200b"]:
        yield t


UNDEFINED = ["Gen１", "Gen\u00a01", "\u00a0Gen 1", "Gen _", "Gen 1:" + "9" * 5000, "9" * 5000]     # non-ASCII digits/blanks, numbers beyond Python's limit: only 'no other exception' is required


def odd_texts(k, modes):
    P.install()
    for mode in modes:
        kw = set_mode(mode)
        for t in odd():
            if t in UNDEFINED:
                k.states += 1
                k.transitions += 1
                r = outcome(P, t, kw)
                if r[0] == "other error" or (r[0] == "perr" and not 0 <= r[1] <= r[2] <= len(t)):
                    k.fail("not a parsing error inside the string", text=t, got=r, mode=mode)
            else:
                judge(k, P, t, mode, kw, verse_range=True)
    k.sample("special strings")


def numerals():
    """Numbers with leading zeros and many digits: every digit string up to length 5 over 0, 1, 2, and long ones."""
    for ln in range(1, 6):
        for ds in itertools.product("012", repeat=ln):
            d = "".join(ds)
            yield f"Gen {d}"
            yield f"Gen {d}:1"
            yield f"Gen 2:{d}"
            if ln < 4:
                yield f"Obad {d}-2"
                yield f"Gen 1:1, {d}; {d}"
    for z in (6, 10, 20, 50, 300):
        for d in ("0" * z, "0" * z + "1", "1" + "0" * z, "2" + "0" * z + "1", "0" * z + "2" + "0" * z, "1" * z, "0" * z + "3"):
            yield f"Gen {d}"
            yield f"Gen {d}:1"
            yield f"Gen 1:{d}"
            yield f"Obad {d}"
            yield f"1 John 2:1-{d}"


def all_numbers():
    """Every chapter and verse number up to and beyond the largest, of the real Bible, in every form."""
    for n in [*range(0, 205), 999, 1000, 1001, 1150, 10001, 100119]:
        for t in ("Psa {}", "Psa 119:{}", "Jude {}", "Psa {}:1", "Psa 119; {}", "Psa 119:1, {}", "Psa 2-{}", "Psa 119:2-{}", "Psa {}-150", "Isa 1:1-{}:1", "Gen {}:3",
                  "Obad 1-{}", "Psa 118:1-119:{}"):
            yield t.format(n)


def long_texts():
    """Long lists: numbers, chapter:verse pairs, books, alternating separators; good ones and ones with a late mistake."""
    for n in (8, 16, 33, 64, 100, 150):
        yield "Psa " + "; ".join(str(1 + i % 150) for i in range(n))
        yield "Psa " + ", ".join(str(150 - i) for i in range(n))
        yield "Psa 119:" + ", ".join(str(i + 1) for i in range(n))
        yield "Psa 119:" + ", ".join(f"{i + 1}-{i + 3}" for i in range(0, n, 2))
        yield "Isa " + "; ".join(f"{1 + i % 66}:{1 + i % 5}" for i in range(n))
        yield "Isa " + ",".join(f"{1 + i % 66}:{1 + i % 5}-{1 + i % 66}:{3 + i % 5}" for i in range(n))
        yield "Gen 1:1" + "".join((", ", "; ")[i % 3 == 0] + str(1 + i % 30) for i in range(n))
        yield "Gen 1:1" + "".join((", ", "; ")[i % 3 == 0] + str(1 + i % 30) for i in range(n)) + ", 99"
        yield "; ".join(REAL.names[i % 66].replace("III", "3 ").replace("II", "2 ").replace("IJn", "1 Jn") for i in range(0, n, 4))
        yield "Psa " + "; ".join(str(1 + i) for i in range(n)) + "; 151; 3"


def one_range(k):
    """BibleRange/BibleVerse/BibleRangeList of one string agree (small sample space: all 39 single forms)."""
    for mode in MODES:
        P.install()
        kw = set_mode(mode)
        for t in S39:
            judge(k, P, t, mode, kw, verse_range=True)


def jobs(tier):
    two = [("", "global"), ("MZ", "arg")]
    out = [("odd", odd_texts, (MODES[:1] + MODES[7:],)), ("singles", one_range, ())]
    out += shards("tokens", token_seqs, (P, 5, 3, [("", "global")]), 24)
    out += shards("tokens-MZ", token_seqs, (P, 4, 2, [("MZ", "arg")]), 8)
    out += shards("chars", char_strings, (P, "Gen ", "12:-;, ", 5, ("", "arg")), 16)
    out += shards("duals", texts, (P, duals, two), 8)
    out += shards("context-duals", texts, (P, context_duals, [("", "arg"), ("MZ", "global")]), 8)
    out += shards("lists3", texts, (P, lists3, [("Z", "global")]), 16)
    out += shards("dual-single", texts, (P, dual_then_single, [("MZ", "global")]), 8)
    out += shards("numerals", texts, (P, numerals, [("", "global")]), 8)
    out += shards("all-numbers", texts, (REAL, all_numbers, [("", "arg")]), 8)
    out += shards("long-texts", texts, (REAL, long_texts, [("", "global")]), 8)
    out += shards("spacing", texts, (P, spacing, two), 4)
    out += shards("characters", characters, (False,), 16)
    import huge
    out.append(("huge", huge.parse, ()))
    if tier == "thorough":
        out += shards("characters-all", characters, (True,), 64)
        out += shards("tokens6", token_seqs, (P, 6, 4, [("MZ", "global")]), 128)
        out += shards("chars6", char_strings, (P, "Gen ", "12:-;, ", 6, ("", "global")), 64)
        out += shards("chars6-obad", char_strings, (P, "Obad", "12:-;,", 6, ("MZ", "global")), 32)
        out += shards("lists3-all", texts, (P, lists3, MODES), 64)
        out += shards("dual-dual", texts, (P, dual_dual, [("", "global"), ("MZ", "arg")]), 64)
        out += shards("duals-all", texts, (P, duals, MODES), 16)
        out += shards("singles4", texts, (P, singles4, two), 32)
        out += shards("dual-single-all", texts, (P, dual_then_single, MODES), 32)
    return out
