"""A process asked many things: prints one line per answer. Run by c26 in many ways: battery.py SRC SPELLING MODE."""
import sys, os
SRC, SPELLING, MODE = sys.argv[1:4]
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [SRC, HERE]

SPELL = {
    "package": ["import bibleref"],
    "star": ["from bibleref import *"],
    "util first": ["import bibleref.util", "import bibleref.ref"],
    "data first": ["import bibleref.data"],
    "parser first": ["from bibleref import parser", "from bibleref.ref import BibleVerse"],
    "ref first": ["from bibleref.ref import BibleRangeList, BibleFlag", "import bibleref"],
    "util name": ["from bibleref.util import GroupedList as G", "G([1, 2])"],
    "function": ["from bibleref import bible_data", "bible_data().book_order"],
}
if MODE == "gc always":
    import gc
    gc.set_threshold(1, 1, 1)
elif MODE == "no gc":
    import gc
    gc.disable()
elif MODE == "shallow":
    sys.setrecursionlimit(260)
elif MODE == "deep":
    sys.setrecursionlimit(100000)
elif MODE == "few digits":
    sys.set_int_max_str_digits(640)


def imports():
    names = {}
    for line in SPELL[SPELLING]:
        exec(line, names)


def run():
    import common
    common.REPO_SRC = SRC
    import gc
    import c24, c25
    from model import bibleref, bible_data, BibleBook, BibleVerse, BibleRange, BibleRangeList, BibleFlag, GroupedList, FLAGS
    Q = c24.Q
    out = []

    def line(name, fn):
        try:
            x = fn()
        except Exception as e:
            x = ("exc", type(e).__name__, getattr(e, "start_pos", None), getattr(e, "end_pos", None))
        out.append((name, repr(x)))

    T = lambda s: BibleRangeList(s, flags=BibleFlag.ALL)
    books = list(BibleBook)
    def many():
        l = GroupedList()
        for i in range(400):
            l.append((i * 7) % 400, new_group=i % 9 != 0)
        m = GroupedList(l)
        out = [list(l.groups[330]), l[200], l.index(3), l.count(3), len(l.groups), m == l, l.equals(list(l), compare_groups=False), len(l.to_nested_lists()), list(reversed(l))[:3], 399 in l]
        l.reverse(); out.append(list(l)[:5])
        l.sort(); out.append(list(l)[:5])
        r = T("; ".join(["Gen 1:2", "Rev 3", "Exod 4:5-6"] * 120))
        out += [len(r.groups), r.verse_count(), str(r.range()), len(r.str()), str(r & BibleRange("Exod")), len(r | BibleRange("Lev"))]
        r.sort()
        r.merge()
        return out + [str(r)]
    line("many", many)
    line("books", lambda: [(b.name, b.value, b.order, b.title, b.abbrev, b.verse_count(), b.chap_count(), str(b.range()), str(b.last_verse())) for b in books])
    line("names", lambda: [[BibleBook.from_str(x) for x in (b.title, b.abbrev, b.title.upper(), b.title[:4], b.name)] for b in books])
    line("names written", lambda: [str(BibleVerse(b, 1, 1)) + BibleVerse(b, 1, 1).str(abbrev=True, nospace=True, alt_sep=True) for b in books])
    line("flags", lambda: [bibleref.flags, list(BibleFlag), BibleFlag.ALL, BibleFlag.NONE])
    line("sorted", lambda: [sorted(books[::-1]), sorted(set(books)), str(BibleRange.whole_bible()), BibleRange.whole_bible().verse_count()])
    line("chapters", lambda: [str(b.chap_ranges()) for b in books[::9]])
    line("crossing", lambda: [T("Gen-Rev").verse_count(flags=BibleFlag.ALL), str(T("Mal 4:5-Matt 1:3")[0].split(by_book=True)), T("Psa 119; 3:0-2").str()])
    line("temporaries", lambda: [[list(g) for g in T("Gen 1:1,2; 3; Exod").groups], T("Gen 1; 2:1,3").groups[1][0], list(T("Gen 1;2")), list(reversed(T("Gen 1;2")))])

    def kept():
        """Views and iterators of lists that nothing else refers to."""
        mk = lambda: T("Gen 1; 2:1,3; 3")
        whole = mk()
        made = [mk().groups, mk().groups[1], iter(mk()), reversed(mk()), iter(mk().groups), iter(mk().groups[1]), iter(T("Gen 1:1-3")[0])]
        later = [mk().groups, iter(mk().groups[1]), reversed(mk())]
        for i in later[1:]:
            next(i)
        gc.collect()
        junk = [T("Rev 1; 2") for _ in range(20)]
        g, v, i, r, j, w, x = made
        del junk
        gc.collect()
        good = [[list(y) for y in g] == whole.to_nested_lists(), len(g) == 3, list(g[2]) == [whole[3]], list(v) == [whole[1], whole[2]], v[1] == whole[2], len(v) == 2,
                list(i) == list(whole), list(r) == list(whole)[::-1], [list(y) for y in j] == whole.to_nested_lists(), list(w) == [whole[1], whole[2]],
                list(x) == [BibleVerse("Gen", 1, n) for n in (1, 2, 3)], [len(y) for y in later[0]] == [1, 2, 1], list(later[1]) == [whole[2]], list(later[2]) == list(whole)[-2::-1]]
        v[0] = whole[3]
        del v[1]
        good += [list(v) == [whole[3]], str(mk().groups[1]) == str([whole[1], whole[2]])]
        return all(good) or good
    line("must: kept", kept)
    line("collections", lambda: [sorted({BibleVerse("Gen", 1, i) for i in range(1, 30)}), sorted({BibleRange("Gen", i) for i in range(1, 20)}),
                                 len({BibleVerse("Gen", 1, 1), BibleVerse("Gen 1:1"), BibleRange("Gen 1:1").start}), {BibleVerse("Gen 1:2"): 1}[BibleVerse("Gen", 1, 2)]])
    line("long", lambda: [T(", ".join(str(i) for i in range(1, 41)) and "Psa " + "; ".join(str(i) for i in range(1, 41))).str(), len(T("Psa 119:" + ",".join(map(str, range(1, 61)))))])
    for i, t in enumerate(["Gen 1:1-3; 5; Exod 2:3,4-5; Jude 3", "Gen 99", "Nope 1", "Gen 1:", "", "Gen 1:1-2-3", "1 John 2-3:4", "Gen\x00", "Gen 2:0", "Gen - Exod", "Jude 1:2",
                           "Gen " + "9" * 300, "Gen 1:" + "1" * 5000, "\ud800", "é 1"]):
        for cls in (BibleRangeList, BibleRange, BibleVerse):
            line(f"parse {i} {cls.__name__}", lambda: cls(t))
            line(f"parse all {i} {cls.__name__}", lambda: cls(t, flags=BibleFlag.ALL))
    for bad in (lambda: BibleVerse("Gen", "1", 1), lambda: BibleVerse("Gen", 51, 1), lambda: BibleVerse(), lambda: BibleRange(None), lambda: BibleRangeList(5), lambda: T("Gen 1")[3],
                lambda: T("Gen 1").append("Gen 2"), lambda: T("Gen 1").groups[2], lambda: T("Gen 1").remove(BibleRange("Gen", 2)), lambda: GroupedList().pop(), lambda: GroupedList([1]).insert_group_at(5),
                lambda: BibleRange("Gen").split(), lambda: BibleRange("Gen").split(num_verses=-1), lambda: BibleVerse("Gen", 1, 1) + None, lambda: BibleRange("Gen", None, None, "Exod", flags=BibleFlag.NONE),
                lambda: BibleBook.Gen < 5, lambda: BibleVerse("Gen", 1, 1) < 5, lambda: setattr(BibleVerse("Gen", 1, 1), "book", BibleBook.Rev), lambda: setattr(BibleRange("Gen"), "start", None),
                lambda: BibleBook.from_str("Nope", raise_error=True), lambda: BibleBook.Gen.chap_range(51), lambda: T("Gen 1").insert(0, None), lambda: T("Gen 1;2").groups[0].__setitem__(0, "x"),
                lambda: T("Gen 1; 2").extend([BibleRange("Gen", 3), 7]), lambda: setattr(bible_data(), "range_sep", ""), lambda: setattr(bible_data(), "book_order", [BibleBook.Gen, BibleBook.Gen])):
        line("refused", bad)
    d = bible_data()
    d.range_sep, d.verse_sep_std = "~", "|"
    line("separators", lambda: [str(T("Gen 1|2~3")), call_s(lambda: T("Gen 1:2-3"))])
    d.range_sep, d.verse_sep_std = "-", ":"
    old = d.name_data
    d.name_data = {BibleBook.Gen: ("Gs", "Genèse", 2, []), BibleBook.Rev: ("1O", "1 Offb", 1, [])}
    line("other names", lambda: [str(BibleRange(BibleBook.Gen, 2, 3)), str(BibleVerse("genÈSE 2:3")), str(BibleVerse("I offb 1:1")), BibleBook.from_str("Exod")])
    d.name_data = {b: (b.abbrev, "Same Name", 1, ["Other"]) for b in (BibleBook.Lev, BibleBook.Gen, BibleBook.Rev, BibleBook.Exod, BibleBook.Num, BibleBook.Acts)}
    line("shared names", lambda: [BibleBook.from_str("Same"), BibleBook.from_str("other"), str(BibleVerse("same name 1:1"))])
    d.name_data = old
    o = d.book_order
    d.book_order = [BibleBook.Rev, BibleBook.Jude, BibleBook.Gen]
    line("other order", lambda: [BibleBook.Rev.next(), BibleBook.Gen.prev(), str(T("Rev 22-Jude")), sorted([BibleBook.Gen, BibleBook.Rev])])
    d.book_order = o
    Q.install()
    n = int(os.environ.get("C26_STATES", "4"))
    for i, nested in enumerate((c24.MORE + [[[r]] for r in c24.RS])[:n]):
        for opt in ("", "MZ"):
            bibleref.flags = FLAGS[opt]
            s = c24.S(nested)
            for name in c24.QS:
                line((i, opt, name), lambda: c24.ask(name, s)[0])
            for name, fn, _ in c25.refusals(*c25.shape(nested)):
                s = c25.T(nested)
                line((i, opt, "refusal", name), lambda: (fn(s), None)[1])
                line((i, opt, "after refusal", name), lambda: [Q.tn(s.l), Q.tl(reversed(s.l))])
            for ename, e in c24.edits():
                s = c24.S(nested)
                line((i, opt, "edit", ename), lambda: (e(s.l), None)[1])
                line((i, opt, "after", ename), lambda: [Q.tn(s.l), Q.tl(reversed(s.l)), repr(s.l), s.l.str(flags=BibleFlag.ALL)])
    return out


def call_s(fn):
    try:
        return fn()
    except Exception as e:
        return type(e).__name__


def main():
    imports()
    for name, answer in run():
        sys.stdout.buffer.write((f"{name}\t{answer}".encode("utf-8", "backslashreplace").replace(b"\n", b" ") + b"\n"))
    sys.stdout.flush()


if MODE == "thread":
    import threading
    t = threading.Thread(target=main)
    t.start()
    t.join()
else:
    main()
