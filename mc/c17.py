"""C17: all interleavings of small thread programs up to a preemption bound, on the real code."""
import sched as mcsched
from model import *
from c16 import in_fork
import zlib

BOUNDS = {"quick": "111 programs of 2-3 threads (27 questions asked with explicit options while another thread looks at the global options or asks the same without; 23 questions about shared lists and ranges while another thread reads them): 1 preemption at every source line (both start orders; also with a cold parser), 2 preemptions at every pair of "
                   "lines of parser.py for 3 short programs, 1 preemption at every bytecode of parser.py, data.py, util.py and __init__.py for 20 programs",
          "thorough": "1 preemption at every bytecode of all files and on larger lists, 2 preemptions at every pair of function entries/exits, then of lines, for all programs"}
ASSUMPTIONS = ["switches happen between source lines or bytecodes of the package, not inside Lark or built-in functions",
               "locks created through threading.Lock/RLock are seen by the scheduler; a schedule stuck elsewhere for 20 s is reported as inconclusive"]
DIR = common.REPO_SRC + "/bibleref/"
Q = Bible("Q", [("Gen", [2, 3], {2}), ("Exod", [2, 2], ()), ("Lev", [2], ())])


def parse(text, opt=None):
    def f():
        try:
            l = BibleRangeList(text, **({} if opt is None else {"flags": FLAGS[opt]}))
            return ("ok", Q.tn(l))
        except BibleRefParsingError as e:
            return ("perr", e.start_pos, e.end_pos, str(e))
        except Exception as e:
            return ("other", type(e).__name__, str(e))
    return f


def safe(fn):
    def f():
        try:
            return ("ok", fn())
        except Exception as e:
            return ("exc", type(e).__name__, str(e))
    return f


V = lambda *t: Q.V(t)
R = lambda a, b: Q.R((a, b))


BIG = False


def shared():
    """Objects shared by the threads of one program (built anew in every execution)."""
    if not BIG:
        return {"l": Q.L([[((0, 2, 1), (0, 2, 1))], [((0, 1, 2), (0, 1, 2))]]), "o": Q.L([[((0, 1, 2), (0, 2, 1))]]),
                "r": R((0, 1, 2), (0, 2, 1)), "v": V(0, 1, 2), "m": R((0, 2, 2), (1, 2, 1))}
    l = Q.L([[((0, 2, 1), (0, 2, 2)), ((0, 1, 1), (0, 1, 2))], [((0, 1, 2), (0, 1, 2))]])
    o = Q.L([[((0, 1, 2), (0, 2, 1))]])
    r = R((0, 1, 2), (0, 2, 2))
    return {"l": l, "o": o, "r": r, "v": V(0, 1, 2), "m": R((0, 1, 1), (2, 1, 1))}


def snap(s):
    return (Q.tn(s["l"]), Q.tl(reversed(s["l"])), Q.tn(s["o"]), Q.tr(s["r"]), Q.tv(s["v"]), Q.tr(s["m"]), bibleref.flags == BibleFlag.NONE)


def own(i, what, *args):
    """Work of a thread on a list of its own."""
    l = Q.L([[((0, 1, 2), (0, 1, 2))], [((0, 1, 1), (0, 1, 2))]] if i == 1 else [[((0, 2, 1), (0, 2, 1)), ((0, 2, 2), (0, 2, 2))]])
    if what == "edit":
        l.append(l[0], new_group=True)
        del l[1]
        l.insert(1, l[0])
        l.reverse()
    else:
        getattr(l, what)(*args)
    return Q.tn(l), Q.tl(reversed(l))


# name: (list of body factories taking the shared objects, cold parser?)
PROGRAMS = {
    "parse-parse": ([lambda s: parse("Gen 1:2, 1"), lambda s: parse("Exod 2; 1")], False),
    "parse-context": ([lambda s: parse("Gen 1; 2"), lambda s: parse("2:1")], False),
    "parse-error": ([lambda s: parse("Gen 1:9"), lambda s: parse("Gen 2:1")], False),
    "parse-flags": ([lambda s: parse("Gen 2:0", "Z"), lambda s: parse("Gen 2:0", "")], False),
    "parse-multibook": ([lambda s: parse("Gen 2-Exod 1", "M"), lambda s: parse("Gen 2-Exod 1", "")], False),
    "first-parse": ([lambda s: parse("Gen 1"), lambda s: parse("2")], True),
    "first-parse-error": ([lambda s: parse("Gen 9"), lambda s: parse("2")], True),
    "str-str": ([lambda s: safe(lambda: s["l"].str(abbrev=True, alt_sep=True)), lambda s: safe(lambda: s["l"].str(preserve_groups=False))], False),
    "str-parse": ([lambda s: safe(lambda: str(s["o"])), lambda s: parse("Lev 1-2")], False),
    "set-set": ([lambda s: safe(lambda: Q.tn(s["l"] - s["r"])), lambda s: safe(lambda: Q.tn(s["l"] | s["o"]))], False),
    "set-read": ([lambda s: safe(lambda: Q.tn(s["o"] & s["l"])), lambda s: safe(lambda: (Q.tl(s["l"]), Q.tl(reversed(s["l"])), s["l"].verse_count()))], False),
    "contains-contains": ([lambda s: safe(lambda: s["l"].contains(s["o"])), lambda s: safe(lambda: s["v"] in s["l"])], False),
    "iter-count": ([lambda s: safe(lambda: [Q.tv(v) for v in s["r"]]), lambda s: safe(lambda: (s["r"].verse_count(), s["r"].chap_count(), s["v"] + 2))], False),
    "flags-count": ([lambda s: safe(lambda: (s["r"].verse_count(flags=FLAGS["Z"]), Q.tv(s["v"].add(2, flags=FLAGS["Z"])))),
                     lambda s: safe(lambda: (s["r"].verse_count(), Q.tv(s["v"] + 2)))], False),
    "flags-str": ([lambda s: safe(lambda: s["r"].str(flags=FLAGS["MZ"])), lambda s: safe(lambda: Q.tn(s["r"].split(by_chap=True)))], False),
    "groups-copy": ([lambda s: safe(lambda: Q.tn(s["l"])), lambda s: safe(lambda: Q.tn(BibleRangeList(s["l"])))], False),
    "xor-range": ([lambda s: safe(lambda: Q.tn(s["l"] ^ s["o"])), lambda s: safe(lambda: (Q.tr(s["l"].range()), s["l"].is_disjoint(s["v"])))], False),
    "split-union": ([lambda s: safe(lambda: Q.tn(s["r"].split(by_chap=True))), lambda s: safe(lambda: Q.tn(s["r"] | s["v"]))], False),
    "same-text": ([lambda s: parse("Gen 2:1, 2"), lambda s: parse("Gen 2:1, 2")], False),
    "error-error": ([lambda s: parse("Gen 1, 9"), lambda s: parse("Exod 3:1; 1")], False),
    "syntax-parse": ([lambda s: parse("Gen 1:"), lambda s: parse("Lev 2")], False),
    "names": ([lambda s: safe(lambda: BibleBook.from_str("Gene")), lambda s: safe(lambda: BibleBook.from_str("Levit"))], True),
    "names-str": ([lambda s: safe(lambda: (BibleBook.Gen.title, BibleBook.from_str("Exo"))), lambda s: safe(lambda: s["v"].str(abbrev=True))], True),
    "merge-merge": ([lambda s: safe(lambda: own(1, "merge")), lambda s: safe(lambda: own(2, "merge"))], False),
    "sort-regroup": ([lambda s: safe(lambda: own(2, "sort")), lambda s: safe(lambda: own(1, "regroup"))], False),
    "edit-edit": ([lambda s: safe(lambda: own(1, "edit")), lambda s: safe(lambda: own(2, "edit"))], False),
    "update-update": ([lambda s: safe(lambda: own(1, "union_update", s["r"])), lambda s: safe(lambda: own(2, "difference_update", s["r"]))], False),
    "verse-range-ctor": ([lambda s: safe(lambda: Q.tv(BibleVerse("Gen 1:2"))), lambda s: safe(lambda: Q.tr(BibleRange("Exod 2")))], False),
    "book-queries": ([lambda s: safe(lambda: Q.tn(BibleBook.Gen.chap_ranges(flags=FLAGS["Z"]))), lambda s: safe(lambda: Q.tn(BibleBook.Gen.chap_ranges()))], True),
    "order-compare": ([lambda s: safe(lambda: (BibleBook.Gen < BibleBook.Lev, V(2, 1, 1) > s["v"])),
                       lambda s: safe(lambda: (BibleBook.Exod.next().name, s["r"] < R((1, 1, 1), (1, 1, 1))))], True),
    "short-books": ([lambda s: parse("Gen"), lambda s: parse("Lev 1")], False),
    "short-context": ([lambda s: parse("Exod 2"), lambda s: parse("1")], False),
    "short-flags": ([lambda s: parse("Gen 2", "Z"), lambda s: parse("Gen 2", "")], False),
    "three-parses": ([lambda s: parse("Gen 1"), lambda s: parse("2"), lambda s: parse("1")], False),
}


# One thread asks with explicit options, the other without: table of questions op(shared objects, options keyword)
QUESTIONS = {
    "verse_count": lambda s, kw: s["r"].verse_count(**kw), "chap_count": lambda s, kw: s["r"].chap_count(whole=True, **kw),
    "book_count": lambda s, kw: s["m"].book_count(**kw), "chap_range": lambda s, kw: Q.tr(s["r"].chap_range(**kw)),
    "book_range": lambda s, kw: Q.tr(s["r"].book_range(**kw)), "spans": lambda s, kw: (s["r"].spans_start_chap(**kw), s["r"].spans_end_chap(**kw), s["r"].spans_start_book(**kw), s["r"].spans_end_book(**kw)),
    "whole": lambda s, kw: (s["r"].is_whole_chap(**kw), s["r"].is_whole_book(**kw)), "range str": lambda s, kw: s["r"].str(**kw),
    "list str": lambda s, kw: s["o"].str(preserve_groups=False, **kw), "add": lambda s, kw: Q.tv(s["v"].add(2, **kw)), "subtract": lambda s, kw: Q.tv(V(1, 1, 1).subtract(1, **kw)),
    "distance": lambda s, kw: V(0, 2, 2).subtract(s["v"], **kw), "split": lambda s, kw: Q.tn(s["r"].split(num_verses=2, **kw)),
    "adjacent": lambda s, kw: s["r"].is_adjacent(V(1, 1, 1), **kw), "union": lambda s, kw: Q.tn(s["m"].union(V(2, 1, 1), **kw)), "difference": lambda s, kw: Q.tn(s["m"].difference(V(0, 2, 1), **kw)),
    "list count": lambda s, kw: (s["l"].verse_count(**kw), s["l"].chap_count(**kw)), "list contains": lambda s, kw: s["l"].contains(s["v"], **kw),
    "list chap_range": lambda s, kw: Q.tr(s["l"].chap_range(**kw)), "list union": lambda s, kw: Q.tn(s["o"].union(V(1, 1, 1), **kw)), "book": lambda s, kw: (BibleBook.Gen.verse_count(**kw), Q.tr(BibleBook.Gen.chap_range(2, **kw))),
    "whole bible": lambda s, kw: Q.tr(BibleRange.whole_bible(**kw)), "make range": lambda s, kw: Q.tr(BibleRange(BibleBook.Gen, 2, None, BibleBook.Exod, 1, **kw)),
    "make verse": lambda s, kw: Q.tv(BibleVerse(BibleBook.Gen, 2, 0, **kw)), "first_verse": lambda s, kw: (Q.tv(s["v"].first_verse(2, **kw)), s["v"].is_first_in_chap(**kw)),
    "regroup": lambda s, kw: (lambda x: (x.regroup(**kw), Q.tn(x)))(Q.L([[((0, 2, 1), (0, 2, 3))]])), "merge": lambda s, kw: (lambda x: (x.merge(**kw), Q.tn(x)))(Q.L([[((1, 2, 2), (2, 1, 1))]])),
}


def answer(name, kw):
    return lambda s: safe(lambda: QUESTIONS[name](s, kw))


def glance(s):
    """A short look at what the global options mean right now."""
    return safe(lambda: (bibleref.flags == BibleFlag.NONE, BibleBook.Gen.min_verse_num(2)))


for _q in QUESTIONS:
    PROGRAMS["glance: " + _q] = ([answer(_q, {"flags": FLAGS["MZ"]}), glance], False)
    PROGRAMS["twice: " + _q] = ([answer(_q, {"flags": FLAGS["MZ"]}), answer(_q, {})], False)

# One thread asks a question about shared references, the other looks at them
OTHERS = {
    "contains": lambda s: s["l"].contains(s["o"]), "list in list": lambda s: s["l"] in s["l"], "verse in list": lambda s: s["v"] in s["l"], "list in range": lambda s: s["l"] in s["r"],
    "disjoint": lambda s: (s["l"].is_disjoint(s["v"]), s["r"].is_disjoint(s["l"])), "adjacent": lambda s: s["r"].is_adjacent(s["l"]), "surrounds": lambda s: s["r"].surrounds(s["l"]),
    "or": lambda s: Q.tn(s["l"] | s["v"]), "and": lambda s: Q.tn(s["l"] & s["r"]), "sub": lambda s: Q.tn(s["l"] - s["v"]), "xor": lambda s: Q.tn(s["l"] ^ s["v"]),
    "range or list": lambda s: Q.tn(s["r"] | s["l"]), "range sub list": lambda s: Q.tn(s["r"] - s["l"]),
    "copy": lambda s: Q.tn(BibleRangeList(s["l"])), "equal": lambda s: (s["l"] == s["o"], s["l"] == BibleRangeList(s["l"]), s["l"].equals(s["o"], False)),
    "str": lambda s: (str(s["l"]), s["l"].str(preserve_groups=False, force_start_verses=True)), "range": lambda s: (Q.tr(s["l"].range()), Q.tr(s["l"].book_range())),
    "counts": lambda s: (s["l"].verse_count(), s["l"].chap_count(), s["l"].book_count()), "find": lambda s: (s["l"].index(s["l"][1]), s["l"].count(s["l"][0])),
    "groups": lambda s: ([len(g) for g in s["l"].groups], Q.tr(s["l"].groups[-1][0]), s["l"].to_nested_lists() == s["o"].to_nested_lists()), "hash": lambda s: hash(s["r"]) == hash(s["m"]),
    "verse 0": lambda s: (Q.tr(s["r"].verse_1_to_0()), Q.tr(s["r"].verse_0_to_1())), "split": lambda s: Q.tn(s["m"].split(by_book=True, by_chap=True, num_verses=1)),
}


def look(s):
    return safe(lambda: (Q.tn(s["l"]), Q.tl(reversed(s["l"])), len(s["l"]), len(s["l"].groups), Q.tr(s["l"][-1]), Q.tn(s["o"]), Q.tr(s["r"]), Q.tr(s["m"])))


for _q in OTHERS:
    PROGRAMS["look: " + _q] = ([lambda s, _q=_q: safe(lambda: OTHERS[_q](s)), look], False)

FILES, GRAIN = None, "line"


def execute(name, start, switches, only=None):
    """One execution in this process; returns (completed?, results, snapshot before/after, trace)."""
    facs, cold = PROGRAMS[name]
    s = shared()
    before = snap(s)
    bodies = [f(s) for f in facs]
    if only is not None:
        bodies = [bodies[only]]
    sc = mcsched.Scheduler(bodies, start, switches, DIR, files=FILES, grain=GRAIN)
    ok = sc.run()
    return ok, sc.results, before == snap(s), sc.trace, sc.preempted


def prepare(cold):
    Q.install()
    bibleref.flags = BibleFlag.NONE
    if not cold:
        parse("Lev 2")()        # the parser exists; other lazily built state does not yet


def explore(k, name, bound, big, shard, n, files=None, grain="line"):
    global BIG, FILES, GRAIN
    BIG, FILES, GRAIN = big, files, grain
    facs, cold = PROGRAMS[name]
    prepare(cold)
    solo = []
    for t in range(len(facs)):
        r = in_fork(lambda: execute(name, 0, (), only=t))
        if r is None or not r[0]:
            k.fail("a thread alone does not finish", program=name, thread=t)
            return
        solo.append(r[1][0])
    again = in_fork(lambda: execute(name, 0, ()))
    stats = {"schedules": 0, "inconclusive": 0, "diverged": 0, "max_steps": 0}
    count = [0]

    def run(start, switches, parent):
        k.case = (name, start, switches)
        r = in_fork(lambda: execute(name, start, switches))
        k.states += 1
        k.traces += 1
        k.transitions += 1
        stats["schedules"] += 1
        if r is None or not r[0]:
            stats["inconclusive"] += 1
            return None
        ok, res, same, trace, pre = r
        stats["max_steps"] = max(stats["max_steps"], len(trace))
        if parent is not None and switches:
            i = switches[-1][0]
            if trace[:i] != parent[:i]:
                stats["diverged"] += 1
                return None
        d = dict(program=name, start=start, switches=str(switches),
                 points=str(FILES or "all files") + " " + GRAIN, lines=str([trace[i - 1] for i, _ in switches if i <= len(trace)]))
        for t, (a, b) in enumerate(zip(res, solo)):
            if a != b:
                k.fail("a thread's result depends on the schedule", thread=t, got=a, want=b, **d)
        if not same:
            k.fail("shared references changed", **d)
        k.transitions += len(trace)
        return trace

    def rec(start, switches, trace, left):
        lo = switches[-1][0] + 1 if switches else 1
        for i in range(lo, len(trace)):
            tid = trace[i - 1][0]
            # the running thread must still have something to do, and there must be another live thread
            later = {t for t, _ in trace[i:]}
            if tid not in later:
                continue
            for to in range(len(facs)):
                if to == tid or to not in later:
                    continue
                if not switches:
                    count[0] += 1
                    if count[0] % n != shard:
                        continue
                sw = switches + [(i, to)]
                t2 = run(start, sw, trace)
                if t2 is not None and left > 1:
                    rec(start, sw, t2, left - 1)
    for start in range(len(facs)):
        t = run(start, [], None)
        if start == 0 and again is not None and t is not None and again[3] != t:
            stats["diverged"] += 1
        if t is not None:
            rec(start, [], t, bound)
    for x in ("inconclusive", "diverged"):
        k.extra[x + "_schedules"] = stats[x]
    k.sample({"program": name, "bound": bound, "points": str(files or "all files") + " " + grain, **stats})


HEAVY = ("xor-range", "update-update", "set-set", "merge-merge", "sort-regroup", "split-union")
SHORT = ("short-books", "short-context", "short-flags")


def focused(tag, n, *args, **kw):
    return [(f"{args[0]}-{tag}#{i}", lambda k, i=i: explore(k, *args, i, n, **kw), ()) for i in range(n)]


def jobs(tier):
    out = []
    for name, (facs, cold) in PROGRAMS.items():
        out += shards(f"{name}-1", explore, (name, 1, False), 4 if cold else 1 if ": " in name else 2)
    for name in SHORT:
        out += focused("2parser", 8, name, 2, False, files=("parser.py",))
    for name, (facs, cold) in PROGRAMS.items():
        if not cold and len(facs) == 2 and name not in HEAVY and ": " not in name:
            out += focused("1op", 4, name, 1, False, files=("parser.py", "data.py", "__init__.py", "util.py"), grain="opcode")
    if tier == "thorough":
        for name, (facs, cold) in PROGRAMS.items():
            out += shards(f"{name}-1big", explore, (name, 1, True), 8)
        for name, (facs, cold) in PROGRAMS.items():
            out += focused("1op", 16, name, 1, False, grain="opcode")
        for name, (facs, cold) in PROGRAMS.items():
            out += focused("2call", 16, name, 2, False, grain="call")
        for name, (facs, cold) in PROGRAMS.items():
            out += shards(f"{name}-2", explore, (name, 2, False), 32)
    return out
