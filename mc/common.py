"""Harness shared by all checks: runs exploration jobs in forked workers, collects counts and violations,
writes replay artefacts and evidence, and handles the known-findings file.

A check module defines  PROP, ASSUMPTIONS, jobs(tier) -> [(name, function, args), ...];
each function gets a Ctx first.  Everything is deterministic; no sampling takes place."""
import os, sys, time, json, pickle, signal, resource, select, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO_SRC = "/repo/src"
NPROC = max(1, min(8, os.cpu_count() or 1))
MAXFAIL = 12
STALL_S = 45          # a single case that makes no progress for this long is a hang
DEADLINE_S = {"quick": 780, "thorough": 6 * 3600}


class Hang(BaseException):
    pass


class StopJob(BaseException):
    pass


def import_target():
    """Import bibleref from /repo's working tree."""
    sys.dont_write_bytecode = True
    if REPO_SRC in sys.path:
        sys.path.remove(REPO_SRC)
    sys.path.insert(0, REPO_SRC)
    import bibleref
    if not os.path.realpath(bibleref.__file__).startswith(os.path.realpath(REPO_SRC) + os.sep):
        raise RuntimeError("bibleref imported from " + bibleref.__file__)
    return bibleref


class Ctx:
    """Per-job counters and violation sink."""

    def __init__(self, prop, job, tier):
        self.prop, self.job, self.tier = prop, job, tier
        self.states = 0        # distinct model states / inputs visited
        self.transitions = 0   # operations executed and compared
        self.traces = 0        # complete executions replayed on the implementation and compared with the model
        self.samples = []
        self.extra = {}        # further counters, summed over jobs
        self.fails = []
        self._keys = set()
        self.case = None       # description of the case being run (for crashes and hangs)
        self._last = -1

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def fail(self, what, **detail):
        """Record a violation; `what` + detail identify the failing input or history."""
        d = {k: (v if isinstance(v, (str, int, float, bool, type(None))) else short(v)) for k, v in detail.items()}
        key = what + " " + json.dumps(d, sort_keys=True, default=str)
        if key in self._keys:
            return
        self._keys.add(key)
        self.fails.append({"job": self.job, "what": what, "detail": d, "key": key})
        if len(self.fails) >= MAXFAIL:
            raise StopJob()

    def eq(self, got, want, what, **detail):
        self.transitions += 1
        if got != want:
            self.fail(what, got=got, want=want, **detail)
            return False
        return True

    def _alarm(self, signum, frame):
        tot = self.transitions + self.states + self.traces
        if tot == self._last:
            raise Hang()
        self._last = tot


def short(v, n=400):
    try:
        s = repr(v)
    except Exception as e:  # repr of a broken object
        s = f"<{type(v).__name__}: repr raised {type(e).__name__}>"
    return s if len(s) <= n else s[:n] + "..."


def crash(k, job, e):
    tb = traceback.format_exc()
    k.fails.append({"job": job, "what": f"unexpected {type(e).__name__}: {short(str(e), 200)}",
                    "detail": {"case": short(k.case), "trace": tb[-1800:]},
                    "key": f"unexpected {type(e).__name__} " + job + " " + short(k.case)})


def _child(prop, job, fn, args, tier, wfd):
    k = Ctx(prop, job, tier)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    signal.signal(signal.SIGALRM, k._alarm)
    signal.setitimer(signal.ITIMER_REAL, STALL_S, STALL_S)
    t0 = time.time()
    try:
        fn(k, *args)
    except StopJob:
        pass
    except Hang:
        k.fails.append({"job": job, "what": "no progress (hang)", "detail": {"case": short(k.case)},
                        "key": "hang " + job + " " + short(k.case)})
    except UnboundLocalError as e:
        last = traceback.extract_tb(e.__traceback__)[-1]
        if not (k.states == 0 and os.path.dirname(last.filename) == HERE and (last.line or "").startswith("k.sample")):
            crash(k, job, e)        # (a share with no cases in it has no sample case)
    except BaseException as e:
        crash(k, job, e)
    signal.setitimer(signal.ITIMER_REAL, 0)
    res = {"job": job, "states": k.states, "transitions": k.transitions, "traces": k.traces,
           "samples": k.samples, "extra": k.extra, "fails": k.fails, "wall": time.time() - t0}
    data = pickle.dumps(res)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def run_jobs(prop, jobs, tier):
    """Run all jobs, at most NPROC at a time. Returns (results, unfinished job names)."""
    t_end = time.time() + DEADLINE_S[tier]
    pending = list(reversed(jobs))
    running = {}  # fd -> (pid, name, chunks)
    results, unfinished = [], []
    while pending or running:
        while pending and len(running) < NPROC:
            name, fn, args = pending.pop()
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    _child(prop, name, fn, args, tier, w)
                finally:
                    os._exit(3)
            os.close(w)
            running[r] = (pid, name, [])
        ready, _, _ = select.select(list(running), [], [], 5.0)
        for fd in ready:
            pid, name, chunks = running[fd]
            b = os.read(fd, 1 << 20)
            if b:
                chunks.append(b)
                continue
            os.close(fd)
            del running[fd]
            _, status = os.waitpid(pid, 0)
            data = b"".join(chunks)
            if data:
                results.append(pickle.loads(data))
            else:
                results.append({"job": name, "states": 0, "transitions": 0, "traces": 0, "samples": [], "wall": 0,
                                "fails": [{"job": name, "what": f"worker died (status {status})", "detail": {},
                                           "key": "worker died " + name}]})
        if time.time() > t_end:
            for fd, (pid, name, _) in running.items():
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                unfinished.append(name)
            unfinished += [j[0] for j in pending]
            break
    return results, unfinished


def load_known(prop):
    """Lines 'finding: property=<id> key=<key> | <what>' of known_findings.txt."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith(f"finding: property={prop} key="):
                rest = line.split(" key=", 1)[1].rstrip("\n")
                key, _, what = rest.partition(" | ")
                out[key.strip()] = what.strip()
    return out


def main(mod, argv):
    prop = mod.PROP
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    only = None
    if len(argv) >= 2 and argv[0] == "--replay":
        only = {f["job"] for f in json.load(open(argv[1]))["violations"]}
    elif len(argv) >= 2 and argv[0] == "--job":
        only = set(argv[1:])
    try:
        import_target()
        jobs = mod.jobs(tier)
        if only is not None:
            jobs = [j for j in jobs if j[0] in only]
        results, unfinished = run_jobs(prop, jobs, tier)
    except Exception as e:
        results = [{"job": "import", "states": 0, "transitions": 0, "traces": 0, "samples": [], "wall": 0,
                    "fails": [{"job": "import", "what": f"cannot load the code under test: {type(e).__name__}: {e}",
                               "detail": {"trace": traceback.format_exc()[-1500:]}, "key": "import"}]}]
        unfinished, jobs = [], []
    fails = [f for r in results for f in r["fails"]]
    known = load_known(prop)
    new = [f for f in fails if f["key"] not in known]
    samples = []
    for r in sorted(results, key=lambda r: r["job"]):
        for s in r["samples"][:2]:
            if len(samples) < 8:
                samples.append({"job": r["job"], "case": s})
    cov = {"states": sum(r["states"] for r in results),
           "transitions": sum(r["transitions"] for r in results),
           "traces_validated_against_impl": sum(r["traces"] for r in results),
           "samples": samples or ["(none)"],
           "exhaustive": not unfinished and not new and only is None,
           "jobs": len(jobs), "unfinished_jobs": unfinished,
           "bounds": getattr(mod, "BOUNDS", {}).get(tier, "see DESIGN.md")}
    for r in results:
        for x, y in r.get("extra", {}).items():
            cov[x] = cov.get(x, 0) + y
    wall = round(time.time() - t0, 3)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": wall, "violations": len(new)}
    if only is None:
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    for f in fails:
        if f["key"] in known:
            print(f"KNOWN-FINDING: property={prop} {known[f['key']]}")
    print(f"{prop} {tier}: states={cov['states']} transitions={cov['transitions']} "
          f"traces={cov['traces_validated_against_impl']} jobs={len(jobs)} unfinished={len(unfinished)} wall={wall}s")
    if os.environ.get("VERIF_TIMES"):
        for r in sorted(results, key=lambda r: -r["wall"])[:12]:
            print(f"   {r['wall']:7.2f}s {r['job']} states={r['states']} transitions={r['transitions']}")
    if new:
        path = os.path.join(VERIF, "evidence", f"replay_{prop}.json")
        if only is None or argv[0] != "--replay":
            json.dump({"property": prop, "tier": tier, "violations": new,
                       "how_to_replay": f"VERIF_TIER={tier} ./check {prop} --replay {path}"},
                      open(path, "w"), indent=1, default=str)
        for f in new[:6]:
            print("  " + f["job"] + ": " + f["what"] + " " + json.dumps(f["detail"], default=str)[:1200])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0
