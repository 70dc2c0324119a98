"""C16: the outcome of parsing does not depend on what happened before. Each history runs in its own forked process."""
from interp import *
import pickle, os, signal

BOUNDS = {"quick": "all histories of <=2 operations from a menu of 24, each in a fresh process, followed by 34 probe strings; plus all ordered pairs of probes; "
                   "each of 1,500 strings (singles, pairs, double references, good and bad) right before each of 6 probes; 200 long histories (up to 300 parses, failures, options alternating, results edited); 39 strings read after every sequence of <= 3 of 4 data sets with the same books",
          "thorough": "all histories of <=3 operations, all ordered triples of 12 probes, all sequences of 5 data sets"}
ASSUMPTIONS = ["expected outcomes: the reference interpreter and the outcome in a fresh process"]
F = FLAGS


def _p(text, opt=None, cls=None):
    def f():
        try:
            (cls or BibleRangeList)(text, **({} if opt is None else {"flags": F[opt]}))
        except BibleRefException:
            pass
    return f


def _sep():
    d = bible_data()
    d.range_sep = "~"; _p("Gen 1:2~4")(); d.range_sep = "-"


def _sep2():
    d = bible_data()
    d.verse_sep_std = "|"; d.major_list_sep = "/"; _p("Gen 1|2/ 4")(); d.verse_sep_std = ":"; d.major_list_sep = ";"


def _flags():
    bibleref.flags = BibleFlag.ALL
    _p("Psa 3:0-Prov 2")()
    bibleref.flags = BibleFlag.NONE


def _order():
    d = bible_data()
    old = d.book_order
    d.book_order = [BibleBook.Rev, BibleBook.Gen]
    _p("Gen 1-2; Rev")()
    d.book_order = old


def _names():
    d = bible_data()
    old = d.name_data
    d.name_data = {BibleBook.Gen: ("G", "Ganzes", 2, [])}
    _p("Ganz 1:2")(); _p("Exod 3")()
    d.name_data = old


def _fmt():
    l = BibleRangeList(BibleRange(BibleBook.Gen, 3), BibleRange(BibleBook.Jude, 1, 3))
    str(l); l.str(nospace=True, preserve_groups=False); repr(l)


def _setops():
    a, b = BibleRange(BibleBook.Gen, 3), BibleRange(BibleBook.Gen, 4)
    l = a | b
    l -= b
    l.merge(); l.regroup(); l.sort()
    list(a); a.split(by_chap=True)


def _recursion():
    """A parse that fails in the middle of a long list."""
    _p("Gen 1:1" + ", 2" * 20 + ", 99; 3")()


HIST = [("ok verse", _p("Gen 1:2")), ("ok chapter list", _p("Exod 5; 6")), ("ok single-chapter", _p("Jude 3")), ("ok verse list", _p("Matt 2:3-4, 7")),
        ("ok verse 0", _p("Psa 3:0", "Z")), ("ok multi-book", _p("Gen 50-Exod 2", "M")), ("ok book", _p("Ruth")), ("ok all flags", _p("Psa 4; 5:0-Prov 1", "MZ")),
        ("bad chapter", _p("Gen 99")), ("bad verse", _p("Luke 3:2, 99")), ("bad multi-book", _p("Gen 3-Exod 3")), ("bad name", _p("Foo 3")),
        ("bad second of dual", _p("Acts 3:4-99:1")), ("no book", _p("2:3")), ("syntax", _p("Mark 4:5:6")), ("open end", _p("Mark 7:")), ("empty", _p("")),
        ("verse constructor", _p("Rom 5:6", None, BibleVerse)), ("range constructor fails", _p("Rom 5, 6", None, BibleRange)),
        ("separator changed and restored", _sep), ("two separators changed and restored", _sep2), ("global options changed and restored", _flags),
        ("order and names replaced and restored", lambda: (_order(), _names())), ("formatting", _fmt), ("set operations", _setops), ("long failure", _recursion)]

PROBES = [("2:3", ""), ("3", ""), ("1", "MZ"), ("5, 6", ""), ("3-4", ""), ("; 3", ""), ("Gen 1:2, 3", ""), ("Gen 5; 6", ""), ("Gen", ""), ("Ruth, 3", ""),
          ("Ruth; 2:3, 4", ""), ("Jude 3, 4; 5", ""), ("Jude; 6", ""), ("Psa 3:0", ""), ("Psa 3:0", "Z"), ("Psa 3", "Z"), ("Psa 3", ""), ("Gen 50:26-Exod 1", ""),
          ("Gen 50:26-Exod 1", "M"), ("Gen 1:", ""), ("Foo", ""), ("", ""), ("Matt 2:3-4; 5, 6:1", ""), ("Gen 99", ""), ("Gen 1:99, 2", ""),
          ("Mark 4~5", ""), ("Gen 1.2", ""), ("Gen 1|2", ""), ("Ganz 1:2", ""), ("Exod 3", ""), ("Rev-Gen", "M"), ("3 Jn 4", ""), ("7:", ""), ("Rev", "Z")]


def outcome(text, opt):
    try:
        l = BibleRangeList(text, flags=F[opt])
        return ("ok", REAL.tn(l))
    except BibleRefParsingError as e:
        return ("perr", e.start_pos, e.end_pos, str(e))
    except Exception as e:
        return ("other", type(e).__name__)


def in_fork(fn):
    """Run fn in a forked child; returns its (pickled) value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 40)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.close(r)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(fn()))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def baseline():
    out = []
    for t, o in PROBES:
        out.append(in_fork(lambda: outcome(t, o)))
    return out


def histories(k, depth, shard, n):
    bibleref.flags = BibleFlag.NONE
    base = baseline()
    for (t, o), b in zip(PROBES, base):
        w = interpret(REAL, t, o)
        k.transitions += 1
        if b is None or (w[0] == "ok" and b != w) or (w[0] != "ok" and b[0] != "perr"):
            k.fail("fresh process: outcome", text=t, opt=o, got=b, want=w)
    i = 0
    for ln in range(depth + 1):
        for h in itertools.product(range(len(HIST)), repeat=ln):
            i += 1
            if i % n != shard:
                continue
            names = [HIST[j][0] for j in h]
            k.case = names
            k.states += 1

            def run():
                errs = []
                for j in h:
                    try:
                        HIST[j][1]()
                    except Exception as e:
                        errs.append((HIST[j][0], type(e).__name__))
                res = [outcome(t, o) for t, o in PROBES]
                return errs, res, bibleref.flags == BibleFlag.NONE
            r = in_fork(run)
            k.transitions += len(PROBES)
            k.traces += 1
            if r is None:
                k.fail("process died", history=str(names))
                continue
            for e in r[0]:
                k.fail("unexpected error in the history", history=str(names), got=e)
            if not r[2]:
                k.fail("global options changed", history=str(names))
            for (t, o), b, g in zip(PROBES, base, r[1]):
                if g != b:
                    k.fail("outcome depends on history", history=str(names), text=t, opt=o, got=g, want=b)
    k.sample({"history": str(names), "probes": len(PROBES)})


def probe_seqs(k, ln, probes, shard, n):
    """Every sequence of probes: the last one must have its fresh outcome."""
    bibleref.flags = BibleFlag.NONE
    base = baseline()
    i = 0
    for seq in itertools.product(probes, repeat=ln - 1):
        i += 1
        if i % n != shard:
            continue
        k.states += 1
        k.case = [PROBES[j] for j in seq]

        def run():
            out = []
            for last in range(len(PROBES)):
                for j in seq:
                    outcome(*PROBES[j])
                out.append(outcome(*PROBES[last]))
            return out
        r = in_fork(run)
        k.traces += 1
        k.transitions += len(PROBES)
        if r is None:
            k.fail("process died", history=str(k.case))
            continue
        for (t, o), b, g in zip(PROBES, base, r):
            if g != b:
                k.fail("outcome depends on earlier parses", history=str(k.case), text=t, opt=o, got=g, want=b)
    k.sample({"history": str(k.case)})


TEXTS = [t for t, _ in PROBES] + ["Gen 1:2", "Exod 5; 6", "Jude 3", "Matt 2:3-4, 7", "Psa 119:1-176", "Gen 99", "Luke 3:2, 99", "2:3", "Isa 1:1, 3, 5; 2", "1 Cor 13"]


def marathons():
    """Long histories: name -> list of operations."""
    out = {}
    for n in (10, 40, 130, 300):
        out[f"{n} different chapters"] = [_p(f"Psa {1 + i % 150}:{1 + i // 150}") for i in range(n)]
        out[f"{n} different verses, options alternating"] = [_p(f"Psa 119:{1 + i % 176}", OPTS[i % 4]) for i in range(n)]
        out[f"{n} errors"] = [_p(TEXTS_BAD[i % len(TEXTS_BAD)]) for i in range(n)]
        out[f"{n} times the same"] = [_p("Matt 2:3-4, 7")] * n
        out[f"{n} names"] = [lambda i=i: BibleBook.from_str(REAL.names[i % 66][:3 + i % 3]) for i in range(n)]
        out[f"{n} strings"] = [lambda i=i: str(REAL.R((REAL.first(i % 66), REAL.last(i % 66)))) for i in range(n)]
    for i, t in enumerate(TEXTS):
        out[f"{t!r} with all options, five times"] = [_p(t, o) for o in OPTS] * 5
        out[f"{t!r} as verse, range and list"] = [_p(t, None, c) for c in (BibleVerse, BibleRange, BibleRangeList)] * 3
        out[f"{t!r} with all global options"] = [lambda t=t, o=o: _global(t, o) for o in OPTS[1:] + OPTS[:1]]
        out[f"{t!r}, result edited"] = [lambda t=t, o=o: _tampered(t, o) for o in OPTS] * 2
    return out


TEXTS_BAD = ["Gen 99", "Luke 3:2, 99", "Gen 3-Exod 3", "Foo 3", "2:3", "Mark 4:5:6", "Mark 7:", "", "Rom 5:6;;", "Jude 99"]


def _global(t, o):
    bibleref.flags = F[o]
    _p(t)()


def _tampered(t, o):
    try:
        l = BibleRangeList(t, flags=F[o])
    except BibleRefException:
        return
    tamper(l)
    l.append(REAL.R((REAL.first(0), REAL.last(0))))


def more(text, opt):
    """The same text given to the verse and range constructors, and its list printed."""
    out = []
    for cls in (BibleVerse, BibleRange):
        r = call(cls, text, flags=F[opt])
        out.append(str(r[1]))
    r = call(BibleRangeList, text, flags=F[opt])
    out.append(r[1].str(flags=F[opt]) if r[0] == "ok" else r[1])
    return out


def long_histories(k, shard, n):
    bibleref.flags = BibleFlag.NONE
    both = lambda t, o: (outcome(t, o), more(t, o))
    base = [in_fork(lambda: both(t, o)) for t, o in PROBES]
    for i, (name, ops) in enumerate(marathons().items()):
        if i % n != shard:
            continue
        k.case = name
        k.states += 1

        def run():
            for o in ops:
                o()
            return [both(t, o) for t, o in PROBES], bibleref.flags == BibleFlag.NONE
        r = in_fork(run)
        k.transitions += len(PROBES)
        k.traces += 1
        if r is None:
            k.fail("process died", history=name)
            continue
        if not r[1]:
            k.fail("global options changed", history=name)
        for (t, o), b, g in zip(PROBES, base, r[0]):
            if g != b:
                k.fail("outcome depends on history", history=name, text=t, opt=o, got=g, want=b)
    k.sample({"history": name, "operations": len(ops)})


AFTER = [("2", ""), ("2:1", ""), ("Gen 2:2, 1", ""), ("Gen; 2", ""), ("Obad, 1", "Z"), ("1-2", "MZ")]


def after_each(k, corpus, opt, shard, n):
    """In one long process: every string of a systematic corpus, right before each of a few probes."""
    import c15
    bib = c15.P
    bib.install()
    bibleref.flags = BibleFlag.NONE
    want = {}
    for t, o in AFTER:
        w = interpret(bib, t, o)
        want[t] = w if w[0] == "ok" else ("perr",)

    def got(t, o):
        try:
            return ("ok", bib.tn(BibleRangeList(t, flags=F[o])))
        except BibleRefParsingError as e:
            return ("perr",)
        except Exception as e:
            return ("other", type(e).__name__)
    for i, text in enumerate(corpus()):
        if i % n != shard:
            continue
        k.states += 1
        for t, o in AFTER:
            k.case = (text, t)
            first = got(text, opt)
            g = got(t, o)
            k.transitions += 2
            if g != want[t]:
                k.fail("outcome depends on the string parsed before", before=text, before_options=opt, text=t, opt=o, got=g, want=want[t])
                return
        k.traces += 1
    k.sample({"before": text, "outcome": str(first)[:80]})


def corpus2():
    import c15
    s = c15.S15 + ["Obad 9", "Gen 9", "Gen 1:9", "9", "9:1", "Foo", "Foo 1"]
    for a in s:
        yield a
        yield a + ":"
        for x in ("; ", ", ", "-"):
            for b in s:
                yield a + x + b


E4 = Bible("E4", [("Gen", [3], {1}), ("Jude", [2, 1, 2], {2})])     # E's books, the other one with a single chapter
DATA = [E, E2, E3, E4]
WORDS = ["Gen", "Jude", "Gen 1", "Gen 2", "Jude 1", "Jude 2", "Jude 3", "Jude 0", "Gen 1:3", "Gen 2:0", "Jude 1:2", "Jude 2:0", "Gen 1, 2", "Gen; 2", "Jude 1, 2", "Jude; 2", "Jude 1; 2",
         "Jude 2, 3", "Gen, 2", "Jude, 2", "Gen 1:1, 2", "Gen 1:1; 2", "Jude 1:1, 2", "Jude 1-2", "Gen 1-2", "Gen-Jude", "Jude-Gen", "Gen 2-Jude 2", "Jude 2-Gen 1:1", "Gen 1:2-2:1",
         "Jude 1:2-2:1", "Gen 2:2, Jude 2, 1", "Gen 3; Jude 3", "Gen 1:0-2", "Exod 1", "Jude 3:2", "2", "Gen 2.1", "Gen 1:1-Jude"]


def data_histories(k, ln, shard, n):
    """Every sequence of data sets: the same texts are read by the present one."""
    import c15
    for i, seq in enumerate(itertools.product(DATA, repeat=ln)):
        if i % n != shard:
            continue
        for j, bib in enumerate(seq):
            bib.install()
            for opt in ("", "MZ") if j % 2 else ("MZ", ""):
                set_mode((opt, "global"))
                for t in WORDS:
                    k.states += 1
                    c15.judge(k, bib, t, (opt, "after " + " ".join(b.name for b in seq[:j])), {})
    REAL.install()
    k.sample([b.name for b in seq])


def jobs(tier):
    out = shards("histories-2", histories, (2,), 16)
    out += shards("probe-pairs", probe_seqs, (2, range(len(PROBES))), 8)
    out += shards("long", long_histories, (), 16)
    out += shards("after-each", after_each, (corpus2, ""), 8) + shards("after-each-MZ", after_each, (corpus2, "MZ"), 8)
    out += shards("data", data_histories, (3,), 16)
    if tier == "thorough":
        out += shards("data-5", data_histories, (5,), 128)
        out += shards("histories-3", histories, (3,), 128)
        out += shards("probe-triples", probe_seqs, (3, range(0, len(PROBES), 2)), 32)
    return out
