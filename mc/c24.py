"""C24: asking changes nothing, and answers depend on the present only: every non-modifying operation is a self-loop on the observable state, and what it returns is the caller's own."""
import copy, pickle
from model import *
from c16 import in_fork

BOUNDS = {"quick": "274 questions (queries, comparisons, conversions, formatting, parsing, plain set operations, copies) about a list, a second list, a range, a verse and a book: "
                   "each asked twice in 326 states (all lists of <= 2 of 5 ranges and <= 3 of 3 in every grouping x 2 option settings) with views held and iterations in progress; every ordered pair of questions in 8 states; 36 edits between the questions; all sequences of three option settings between them",
          "thorough": "as quick with <= 3 of 5 ranges and four option settings; every ordered pair in 24 states and every ordered triple of the list questions in 2"}
ASSUMPTIONS = ["the answers themselves are decided by the other properties; here they are compared with the answers of a process that was asked nothing else"]
Q = Bible("Q", [("Gen", [2, 3], {2}), ("Obad", [2], ()), ("Psa", [1, 2], {1})])
RS = [((0, 1, 2), (0, 2, 1)), ((0, 2, 2), (0, 2, 2)), ((0, 1, 1), (0, 1, 2)), ((0, 2, 2), (1, 1, 1)), ((2, 1, 0), (2, 1, 1))]
KW = {"": {}, " MZ": {"flags": BibleFlag.ALL}, " none": {"flags": BibleFlag.NONE}}


class S:
    """The objects the questions are about."""
    def __init__(self, nested):
        self.l = Q.L(nested)
        self.o = Q.L([[((0, 2, 1), (0, 2, 3)), ((0, 1, 1), (0, 1, 1))], [((0, 1, 2), (0, 1, 2))]])
        self.e = BibleRangeList()
        self.r = Q.R(((0, 1, 2), (0, 2, 3)))
        self.m = Q.R(((0, 2, 2), (2, 1, 1)))
        self.v = Q.V((0, 2, 1))
        self.h = Q.V((0, 2, 0))
        self.b = BibleBook.Gen
        self.views = [list(x.groups) for x in (self.l, self.o)]
        self.colls = [x.groups for x in (self.l, self.o)]


QS = {}


def q(name, fn):
    assert name not in QS, name
    QS[name] = fn


def kq(name, fn, which=KW):
    for suffix in which:
        q(name + suffix, lambda s, kw=KW[suffix]: fn(s, kw))


def fill():
    one = {"": {}, " MZ": {}}
    # books
    kq("book verse_count", lambda s, kw: s.b.verse_count(**kw))
    kq("book range", lambda s, kw: [s.b.range(**kw), s.b.chap_range(2, **kw), s.b.first_verse(**kw), s.b.first_verse(2, **kw), s.b.min_verse_num(2, **kw)])
    kq("book chap_ranges", lambda s, kw: [s.b.chap_ranges(**kw), s.b.chap_ranges(regroup=False, **kw)])
    q("book facts", lambda s: [s.b.chap_count(), s.b.min_chap_num(), s.b.max_chap_num(), s.b.max_verse_num(2), s.b.last_verse(), s.b.last_verse(1), s.b.next(), s.b.prev(), BibleBook.Psa.next(), BibleBook.Psa.prev()])
    q("book absent", lambda s: [BibleBook.Rev.next(), BibleBook.Rev.prev()])
    q("book bad chapter", lambda s: s.b.max_verse_num(9))
    q("book names", lambda s: [BibleBook.from_str(t) for t in ("Gen", "genesis", "Obadiah", "Psalm", "Nope", "")])
    q("book name error", lambda s: BibleBook.from_str("Nope", raise_error=True))
    q("book compare", lambda s: [s.b < BibleBook.Obad, s.b >= BibleBook.Psa, s.b == BibleBook.Gen, sorted([BibleBook.Psa, s.b])])
    # verses
    q("verse make", lambda s: [BibleVerse("Gen", 1, 2), BibleVerse(s.v), BibleVerse("Obad 2"), BibleVerse(s.b, 2, 1)])
    q("verse make bad", lambda s: BibleVerse(s.b, 2, 9))
    q("verse make bad text", lambda s: BibleVerse("Gen 1-2"))
    kq("verse make heading", lambda s, kw: BibleVerse(s.b, 2, 0, **kw))
    kq("verse add", lambda s, kw: [s.v.add(1, **kw), s.v.add(3, **kw), s.v.add(99, **kw), s.h.add(1, **kw), s.v.subtract(1, **kw), s.v.subtract(2, **kw)])
    kq("verse distance", lambda s, kw: [s.v.subtract(Q.V((0, 1, 1)), **kw), Q.V((0, 1, 1)).subtract(s.v, **kw)])
    q("verse operators", lambda s: [s.v + 1, s.v - 1, s.v - Q.V((0, 1, 2)), s.v < s.h, s.v == s.h, hash(s.v) == hash(s.h)])
    kq("verse facts", lambda s, kw: [s.v.first_verse(**kw), s.v.is_first_in_chap(**kw), s.v.is_first_in_book(**kw), s.v.min_verse_num(**kw), s.v.chap_range(**kw), s.v.book_range(**kw)])
    q("verse more facts", lambda s: [s.v.last_verse(), s.v.is_last_in_chap(), s.v.is_last_in_book(), s.v.max_verse_num(), s.v.min_chap_num(), s.v.max_chap_num()])
    q("verse conversions", lambda s: [s.v.verse_0_to_1(), s.v.verse_1_to_0(), s.h.verse_0_to_1(), s.h.verse_1_to_0()])
    q("verse str", lambda s: [str(s.v), s.v.str(abbrev=True, nospace=True), s.v.str(alt_sep=True), str(s.h)])
    # ranges
    q("range make", lambda s: [BibleRange("Gen 1:2-2:1"), BibleRange(s.b, 2), BibleRange(s.r), BibleRange(s.b, 2, 3, None, 1, 1), BibleRange(start=s.v, end=Q.V((0, 1, 1)))])
    q("range make bad", lambda s: BibleRange("Gen 1; 2"))
    kq("range make multibook", lambda s, kw: BibleRange(s.b, 2, None, BibleBook.Obad, **kw))
    kq("range whole bible", lambda s, kw: BibleRange.whole_bible(**kw))
    for n, f in (("r", lambda s: s.r), ("m", lambda s: s.m)):
        kq(f"range {n} counts", lambda s, kw, f=f: [f(s).verse_count(**kw), f(s).chap_count(**kw), f(s).chap_count(whole=True, **kw), f(s).book_count(**kw), f(s).book_count(whole=True, **kw)])
        kq(f"range {n} spans", lambda s, kw, f=f: [f(s).is_whole_chap(**kw), f(s).is_whole_book(**kw), f(s).spans_start_chap(**kw), f(s).spans_end_chap(**kw), f(s).spans_start_book(**kw), f(s).spans_end_book(**kw), f(s).is_single_verse()])
        kq(f"range {n} enclosing", lambda s, kw, f=f: [f(s).chap_range(**kw), f(s).book_range(**kw)])
        kq(f"range {n} split", lambda s, kw, f=f: [f(s).split(by_chap=True, **kw), f(s).split(by_book=True, **kw), f(s).split(num_verses=2, **kw), f(s).split(**kw)])
        kq(f"range {n} split plain", lambda s, kw, f=f: [f(s).split(by_chap=True, num_verses=1, regroup=False, **kw), f(s).split(by_book=True, regroup=False, **kw)], one)
        q(f"range {n} iterate", lambda s, f=f: [list(f(s)), [v for v in f(s) for w in f(s) if v < w][:5]])
        q(f"range {n} str", lambda s, f=f: [str(f(s)), f(s).str(abbrev=True, alt_sep=True), f(s).str(nospace=True, force_start_verses=True)])
        kq(f"range {n} str options", lambda s, kw, f=f: f(s).str(**kw))
        q(f"range {n} conversions", lambda s, f=f: [f(s).verse_0_to_1(), f(s).verse_1_to_0()])
        for on, g in (("verse", lambda s: s.v), ("range", lambda s: Q.R(((0, 2, 1), (0, 2, 2)))), ("list", lambda s: s.l), ("empty", lambda s: s.e)):
            kq(f"range {n} sets {on}", lambda s, kw, f=f, g=g: [f(s).union(g(s), **kw), f(s).intersection(g(s), **kw), f(s).difference(g(s), **kw), f(s).sym_difference(g(s), **kw), f(s).is_adjacent(g(s), **kw)], one)
            q(f"range {n} operators {on}", lambda s, f=f, g=g: [f(s) | g(s), f(s) & g(s), f(s) - g(s), f(s) ^ g(s), g(s) in f(s)])
            q(f"range {n} tests {on}", lambda s, f=f, g=g: [f(s).contains(g(s)), f(s).is_disjoint(g(s)), f(s).surrounds(g(s))])
    q("range compare", lambda s: [s.r < s.m, s.r <= s.m, s.r == s.m, s.r != s.m, s.r == BibleRange(s.r), hash(s.r) == hash(BibleRange(s.r)), s.r == s.v, s.r == s.l, s.r == None])
    # lists
    q("list read", lambda s: [list(s.l), list(reversed(s.l)), len(s.l), bool(s.l), s.l[0], s.l[-1], s.l[len(s.l) - 1]])
    q("list bad index", lambda s: s.l[9])
    q("list groups", lambda s: [len(s.l.groups), [list(g) for g in s.l.groups], [len(g) for g in s.l.groups], s.l.groups[-1][0], s.l.to_nested_lists()])
    q("list bad group", lambda s: s.l.groups[9])
    q("list bad group item", lambda s: s.l.groups[0][9])
    q("list find", lambda s: [s.l.index(s.l[-1]), s.l.count(s.l[0])])
    q("list find absent", lambda s: s.l.index(Q.R(((1, 1, 1), (1, 1, 2)))))
    q("list compare", lambda s: [s.l == s.o, s.l != s.o, s.l == BibleRangeList(s.l), s.l.equals(s.o), s.l.equals(list(s.l), False), s.l.equals(BibleRangeList(list(s.l)), compare_groups=False), s.l == s.e, s.l == 1])
    q("list copy", lambda s: [BibleRangeList(s.l), copy.copy(s.l), copy.deepcopy(s.l), pickle.loads(pickle.dumps(s.l)), BibleRangeList(s.e)])
    q("list rebuild", lambda s: [BibleRangeList(list(s.l)), BibleRangeList(*s.l), BibleRangeList([list(g) for g in s.l.groups]), BibleRangeList(s.l.to_nested_lists()), BibleRangeList(s.l.groups[0])])
    kq("list counts", lambda s, kw: [s.l.verse_count(**kw), s.l.chap_count(**kw), s.l.chap_count(whole=True, **kw), s.l.book_count(**kw), s.l.book_count(whole=True, **kw)])
    q("list range", lambda s: s.l.range())
    kq("list enclosing", lambda s, kw: [s.l.chap_range(**kw), s.l.book_range(**kw)])
    kq("list str", lambda s, kw: [s.l.str(**kw), s.l.str(preserve_groups=False, **kw), s.l.str(abbrev=True, alt_sep=True, nospace=True, **kw), s.l.str(force_start_verses=True, **kw)])
    q("list str()", lambda s: [str(s.l), str(s.e), str(s.o)])
    for on, g in (("verse", lambda s: s.v), ("range", lambda s: s.r), ("multibook", lambda s: s.m), ("list", lambda s: s.o), ("itself", lambda s: s.l), ("empty", lambda s: s.e)):
        kq(f"list union {on}", lambda s, kw, g=g: s.l.union(g(s), **kw), one)
        kq(f"list intersection {on}", lambda s, kw, g=g: s.l.intersection(g(s), **kw), one)
        kq(f"list difference {on}", lambda s, kw, g=g: s.l.difference(g(s), **kw), one)
        kq(f"list sym_difference {on}", lambda s, kw, g=g: s.l.sym_difference(g(s), **kw), one)
        q(f"list operators {on}", lambda s, g=g: [s.l | g(s), s.l & g(s), s.l - g(s), s.l ^ g(s), g(s) in s.l])
        kq(f"list contains {on}", lambda s, kw, g=g: s.l.contains(g(s), **kw), one)
        q(f"list disjoint {on}", lambda s, g=g: s.l.is_disjoint(g(s)))
    for bad, x in (("text", "Gen"), ("nothing", None)):
        for op in ("union", "intersection", "difference", "sym_difference", "contains"):
            kq(f"list {op} {bad}", lambda s, kw, op=op, x=x: getattr(s.l, op)(x, **kw), one)
            q(f"range {op} {bad}", lambda s, op=op, x=x: getattr(s.r, op)(x))
        for op in ("is_disjoint", "is_adjacent", "surrounds"):
            q(f"range {op} {bad}", lambda s, op=op, x=x: getattr(s.r, op)(x))
        q(f"list is_disjoint {bad}", lambda s, x=x: s.l.is_disjoint(x))
        q(f"list find {bad}", lambda s, x=x: s.l.index(x))
        q(f"list count {bad}", lambda s, x=x: s.l.count(x))
    q("list set operators text", lambda s: s.l | "Gen")
    q("range bad split", lambda s: s.r.split(num_verses=0))
    q("verse bad sum", lambda s: s.v + "1")
    q("verse bad difference", lambda s: s.v.subtract("Gen"))
    q("list unlike", lambda s: s.l < s.o)
    kq("range whole chapter bad", lambda s, kw: BibleRange(s.b, 9, **kw), one)
    kq("range bad verse", lambda s, kw: BibleRange(s.b, 1, 0, None, 1, 2, **kw), one)
    kq("parse bad heading", lambda s, kw: BibleRangeList("Gen 1:0", **kw), one)
    q("empty list", lambda s: [s.e | s.r, s.e & s.r, s.e - s.l, s.e ^ s.v, len(s.e), list(s.e), list(s.e.groups)])
    q("other list", lambda s: [s.o - s.l, s.o & s.l, s.o.verse_count(), s.o.str(), s.o.contains(s.r)])
    # text
    kq("parse", lambda s, kw: [BibleRangeList(t, **kw) for t in ("Gen 1:2, 1; 2", "Obad 1; Psa 1:1-2:1", "Gen")])
    q("parse error", lambda s: BibleRangeList("Gen 9"))
    q("parse nonsense", lambda s: BibleRangeList("Gen 1:;"))
    kq("parse heading", lambda s, kw: BibleRangeList("Gen 2:0", **kw))
    kq("parse multibook", lambda s, kw: BibleRangeList("Gen 2-Obad", **kw))


fill()
LISTQ = [n for n in QS if n.startswith("list")]


def enc(x, made):
    if isinstance(x, BibleVerse):
        return ("v", Q.tv(x))
    if isinstance(x, BibleRange):
        return ("r", Q.tr(x))
    if isinstance(x, GroupedList):
        made.append(x)
        return ("l", Q.tn(x), Q.tl(reversed(x)), len(x))
    if isinstance(x, BibleBook):
        return ("b", x.name)
    if isinstance(x, (list, tuple)):
        out = [enc(y, made) for y in x]
        if isinstance(x, list):
            x.clear()  # a plain list returned belongs to the caller too
        return out
    if x is None or isinstance(x, (bool, int, str)):
        return x
    return ("?", type(x).__name__)


def ask(name, s):
    """(answer, lists returned)"""
    made = []
    try:
        return ("ok", enc(QS[name](s), made)), made
    except Exception as e:
        return ("exc", type(e).__name__, getattr(e, "start_pos", None), getattr(e, "end_pos", None)), made


def data():
    d = bible_data()
    return (bibleref.flags, [b.name for b in d.book_order], {b.name: list(v) for b, v in d.max_verses.items()}, {b.name: set(v) for b, v in d.verse_0s.items()}, copy.copy(d.name_data),
            d.range_sep, d.major_list_sep, d.minor_list_sep, d.verse_sep_std, d.verse_sep_alt, [(b.order, b.title, b.abbrev) for b in BibleBook])


def look(s):
    lists = [(Q.tn(x), Q.tl(x), Q.tl(reversed(x)), len(x), len(x.groups), [Q.tr(x[i]) for i in range(-len(x), len(x))]) for x in (s.l, s.o, s.e)]
    views = [[[Q.tr(r) for r in v] for v in vs] for vs in s.views]
    return lists, views, [[[Q.tr(r) for r in v] for v in c] for c in s.colls], Q.tr(s.r), Q.tr(s.m), Q.tv(s.v), Q.tv(s.h), s.b.name


def states(mx):
    out = [l for l in all_lists(RS, mx) if l]
    for seq in itertools.product(RS[:3], repeat=3):
        out += [nest(seq, sz) for sz in set_partitions_seq(3)]
    return out


def all_lists(rs, mx):
    for n in range(1, mx + 1):
        for seq in itertools.product(rs, repeat=n):
            for sz in set_partitions_seq(n):
                yield nest(seq, sz)


PAIRS = [[[RS[0]], [RS[2], RS[1]]], [[RS[1], RS[1]]], [[RS[3]], [RS[0]]], [[RS[4], RS[2]], [RS[2]]]]
MORE = PAIRS + [[[RS[0], RS[0], RS[2]]], [[RS[2]], [RS[0]]], [[RS[4]]]]


def fresh(names, nested):
    """Answers of processes asked nothing before, one per question."""
    return {n: in_fork(lambda: ask(n, S(nested))[0]) for n in names}


def start(opt):
    Q.install()
    bibleref.flags = FLAGS[opt]


def single(k, mx, opts, shard, n):
    """Each question asked twice, with views held and iterations in progress; its results edited in between."""
    for opt in opts:
        start(opt)
        d0 = data()
        for i, nested in enumerate(states(mx)):
            if i % n != shard:
                continue
            s = S(nested)
            before = look(s)
            for name in QS:
                k.states += 1
                k.transitions += 2
                k.case = (name, nested, opt)
                d = dict(question=name, list=Q.s(nested), options=opt)
                its = [iter(s.l), reversed(s.l), iter(s.l.groups), iter(s.l.groups[0]), iter(s.r)]
                part = [[enc(next(it), [])] if j != 2 else [[Q.tr(r) for r in next(it)]] for j, it in enumerate(its)]
                a, made = ask(name, s)
                if any(x is y for x in made for y in (s.l, s.o, s.e)):
                    k.fail("an operation returned its operand", **d)
                    s = S(nested)
                    continue
                now = call(look, s)
                if now != ("ok", before):
                    k.fail("a question changed what it was about", got=now[:2], want=before, **d)
                    s = S(nested)
                    continue
                for it, p, w in zip(its, part, (before[0][0][1], before[0][0][2], before[0][0][0], before[0][0][0][0], Q.verses(Q.tr(s.r), opt))):
                    got = call(lambda: [[Q.tr(r) for r in y] if isinstance(y, GroupedList.GroupView) else enc(y, []) for y in it])
                    p = [x[1] if isinstance(x, tuple) else x for x in p]
                    if got[0] == "ok":
                        got = ("ok", p + [x[1] if isinstance(x, tuple) else x for x in got[1]])
                    if got[:2] != ("ok", list(w)):
                        k.fail("a question disturbed an iteration in progress", got=got[:2], want=w, **d)
                for x in made:
                    tamper(x)
                now = call(look, s)
                if now != ("ok", before):
                    k.fail("editing a result changed something else", got=now[:2], want=before, **d)
                    s = S(nested)
                    continue
                b = ask(name, s)[0]
                if a != b:
                    k.fail("the same question asked again", got=b, want=a, **d)
            if data() != d0:
                k.fail("the options or the Bible data changed", list=Q.s(nested), options=opt)
                start(opt)
            k.traces += 1


def sequences(k, nested, opt, depth, names, shard, n):
    """Every sequence of questions gives the answers that each gives alone."""
    start(opt)
    want = fresh(names, nested)
    d0 = data()
    heads = names
    for i, first in enumerate(heads):
        if i % n != shard:
            continue
        for rest in itertools.product(names, repeat=depth - 1):
            s = S(nested)
            k.states += 1
            k.case = (first, rest, nested, opt)
            for j, name in enumerate((first, *rest)):
                k.transitions += 1
                a, made = ask(name, s)
                if a != want[name]:
                    k.fail("an answer depends on what was asked before", questions=[first, *rest][:j + 1], list=Q.s(nested), options=opt, got=a, want=want[name])
                if not any(x is y for x in made for y in (s.l, s.o, s.e)):
                    for x in made:
                        tamper(x)
        if data() != d0:
            k.fail("the options or the Bible data changed", first=first, options=opt)
            start(opt)
        k.traces += 1


def edits():
    x, y = Q.R(((1, 1, 1), (1, 1, 1))), Q.R(((0, 1, 1), (0, 1, 1)))

    def regrouped(l):
        """The same ranges and number of groups, another boundary."""
        sizes = [len(g) for g in l.groups]
        for sz in set_partitions_seq(len(l)):
            if len(sz) == len(sizes) and list(sz) != sizes:
                seq = list(l)
                for i, r in enumerate(seq):
                    l[i] = r
                l.clear_groups()
                for i in itertools.accumulate(sz[:-1]):
                    l.insert_group_at(i)
                return

    yield "append", lambda l: l.append(x)
    yield "append a group", lambda l: l.append(x, new_group=True)
    yield "prepend", lambda l: l.prepend(y)
    yield "prepend a group", lambda l: l.prepend(y, new_group=True)
    yield "insert", lambda l: l.insert(1, x)
    for i in (0, 1, -1):
        yield f"set {i}", lambda l, i=i: l.__setitem__(i, x)
        yield f"delete {i}", lambda l, i=i: l.__delitem__(i)
    yield "pop", lambda l: l.pop()
    yield "pop 0", lambda l: l.pop(0)
    yield "remove", lambda l: l.remove(l[-1])
    yield "extend", lambda l: l.extend([x, y])
    yield "append_group", lambda l: l.append_group([x, y])
    yield "+=", lambda l: l.__iadd__([y])
    yield "exchange", lambda l: (l.append(l[0]), l.pop(0))
    yield "reverse", lambda l: l.reverse()
    yield "sort", lambda l: l.sort()
    yield "sort only", lambda l: l.sort(regroup=False)
    yield "merge", lambda l: l.merge()
    yield "regroup", lambda l: l.regroup()
    yield "clear_groups", lambda l: l.clear_groups()
    yield "move a boundary", regrouped
    yield "insert_group_at", lambda l: l.insert_group_at(1)
    yield "refill", lambda l: (l.clear(), l.extend([y, x]))
    yield "clear", lambda l: l.clear()
    yield "view set", lambda l: l.groups[0].__setitem__(0, x)
    yield "view delete", lambda l: l.groups[-1].__delitem__(0)
    yield "0 to 1", lambda l: l.verse_0_to_1()
    yield "1 to 0", lambda l: l.verse_1_to_0()
    yield "|=", lambda l: l.union_update(x)
    yield "&=", lambda l: l.intersection_update(Q.R(((0, 1, 1), (0, 2, 2))))
    yield "-=", lambda l: l.difference_update(Q.V((0, 2, 2)))
    yield "^=", lambda l: l.sym_difference_update(Q.R(((0, 2, 1), (0, 2, 2))))


def edited(k, sts, opts, shard, n):
    """After any edit, the answers are those about a list built with the new contents: whether the same question, or every question, was asked before the edit."""
    i = 0
    for opt in opts:
        start(opt)
        for nested in sts:
            for ename, e in edits():
                i += 1
                if i % n != shard:
                    continue
                s = S(nested)
                for name in QS:
                    ask(name, s)
                r = call(e, s.l)
                if r[0] == "exc" and r[1] not in ("IndexError", "ValueError"):
                    k.fail("an edit failed", edit=ename, list=Q.s(nested), options=opt, got=r[:2])
                now = Q.tn(s.l)
                for name in LISTQ + [m for m in QS if m.endswith(" list")]:
                    k.states += 1
                    k.case = (name, ename, nested, opt)
                    k.transitions += 4
                    want = ask(name, S(now))[0]
                    d = dict(question=name, edit=ename, list=Q.s(nested), after=Q.s(now), options=opt, want=want)
                    got = ask(name, s)[0]
                    if got != want:
                        k.fail("an answer after an edit is not about the present contents", got=got, **d)
                    t = S(nested)
                    ask(name, t)
                    call(e, t.l)
                    got = ask(name, t)[0]
                    if got != want:
                        k.fail("an answer after an edit is not about the present contents", got=got, **d)
                k.traces += 1


def switching(k, nested, shard, n):
    """The options change between questions: answers depend on the options in effect only."""
    want = {}
    for opt in OPTS:
        start(opt)
        want[opt] = fresh(list(QS), nested)
    for i, name in enumerate(QS):
        if i % n != shard:
            continue
        for seq in itertools.product(OPTS, repeat=3):
            s = S(nested)
            for j, opt in enumerate(seq):
                k.states += 1
                k.transitions += 1
                k.case = (name, seq, nested)
                bibleref.flags = FLAGS[opt]
                got = ask(name, s)[0]
                if got != want[opt][name]:
                    k.fail("an answer depends on earlier options", question=name, options=seq[:j + 1], list=Q.s(nested), got=got, want=want[opt][name])
        k.traces += 1


def jobs(tier):
    big = tier == "thorough"
    out = shards("single", single, (3 if big else 2, OPTS if big else ["", "MZ"]), 32 if big else 16)
    for i, nested in enumerate(MORE if big else PAIRS):
        for opt in OPTS if big else ["", "MZ"]:
            out += shards(f"pairs{i}{opt}", sequences, (nested, opt, 2, list(QS)), 8 if big else 4)
    out += shards("edited", edited, (MORE if big else PAIRS, OPTS if big else ["", "MZ"]), 16)
    for i, nested in enumerate(MORE if big else PAIRS[:2]):
        out += shards(f"switching{i}", switching, (nested,), 4)
    if big:
        for i, opt in ((0, ""), (2, "MZ")):
            out += shards(f"triples{i}{opt}", sequences, (PAIRS[i], opt, 3, LISTQ), 16)
    return out
