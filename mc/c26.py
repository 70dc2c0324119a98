"""C26: answers do not depend on how the interpreter runs: every combination of hash seed, optimisation level, locale and first import, and every special condition, gives the same transcript."""
import os, sys, itertools, subprocess, tempfile
import common

BOUNDS = {"quick": "a transcript of about 3,600 answers (all books, names, parses, settings, temporaries, long lists; every question of C24, every refusal of C25 and 36 edits in 2 lists x 2 option settings) compared between fresh processes: "
                   "3 hash seeds x 3 optimisation levels x 3 locales x 8 ways of importing first, and 9 special conditions (collector always / never, shallow / deep recursion limit, few digits, another thread, "
                   "warnings as errors, bytes warnings, development mode) x 3 optimisation levels x 2 hash seeds",
          "thorough": "the same with 12 lists, 8 hash seeds, and every special condition with every way of importing"}
ASSUMPTIONS = ["the transcript itself is right (decided by the other properties)", "one version of Python; error messages are not compared"]
HERE = os.path.dirname(os.path.abspath(__file__))
OPT = [[], ["-O"], ["-OO"]]
LOCALES = {"utf-8": {"LC_ALL": "C.UTF-8"}, "ascii": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, "unset": {"PYTHONIOENCODING": "latin-1"}}
SPELLINGS = ["package", "star", "util first", "data first", "parser first", "ref first", "util name", "function"]
SPECIAL = {"gc always": [], "no gc": [], "shallow": [], "deep": [], "few digits": [], "thread": [], "warnings": ["-W", "error"], "bytes": ["-bb"], "dev": ["-X", "dev"]}


def transcript(seed, opt, locale, spelling, mode, cwd, lists):
    env = {"PATH": os.environ.get("PATH", ""), "PYTHONHASHSEED": str(seed), "C26_STATES": str(lists), **LOCALES[locale]}
    p = subprocess.run([sys.executable, "-B", *opt, *SPECIAL.get(mode, []), os.path.join(HERE, "battery.py"), common.REPO_SRC, spelling, mode],
                       env=env, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=200)
    lines = p.stdout.decode("utf-8").split("\n")[:-1]
    if p.returncode or not lines or (p.stderr and mode != "dev"):
        lines.append(f"exit {p.returncode}\t{p.stderr.decode('utf-8', 'replace')[-300:]}")
    return lines


def runs(tier):
    big = tier == "thorough"
    seeds = range(8) if big else (0, 1, 2)
    out = [(s, o, l, sp, "plain") for s in seeds for o in OPT for l in LOCALES for sp in SPELLINGS]
    out += [(s, o, "utf-8", sp, m) for m in SPECIAL for o in OPT for s in (0, 5) for sp in (SPELLINGS if big else SPELLINGS[:1])]
    return out


def compare(k, tier, shard, n):
    lists = 12 if tier == "thorough" else 2
    with tempfile.TemporaryDirectory() as tmp:
        want = transcript(0, [], "utf-8", "package", "plain", HERE, lists)
        if len(want) < 3000:
            k.fail("the questions could not be asked", got=want[-1:])
            return
        for a in want:
            if a.startswith("must") and not a.endswith("\tTrue"):
                k.fail("a list did not outlive its other references", question=a[:300])
        for i, (s, o, l, sp, m) in enumerate(runs(tier)):
            if i % n != shard:
                continue
            k.case = (s, o, l, sp, m)
            got = transcript(s, o, l, sp, m, tmp if i % 2 else "/", lists)
            k.states += 1
            k.traces += 1
            k.transitions += len(want)
            for j, (a, b) in enumerate(itertools.zip_longest(got, want)):
                if a != b:
                    k.fail("an answer depends on how the interpreter runs", question=(b or a).split("\t")[0], got=(a or "(nothing)").split("\t")[-1][:300], want=(b or "(nothing)").split("\t")[-1][:300],
                           hashseed=s, options=" ".join(o), locale=l, imports=sp, condition=m)
                    break
    k.sample({"hash seed": s, "options": o, "locale": l, "imports": sp, "condition": m, "answers": len(want)})


def jobs(tier):
    n = 64 if tier == "thorough" else 16
    return [(f"compare#{i}", compare, (tier, i, n)) for i in range(n)]
