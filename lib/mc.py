"""Bounded exhaustive exploration engine.

A check module provides a class with
    ID, LEVEL, RULE, ASSUMPTIONS
    spaces(tier)      -> list of Space objects
A Space enumerates a finite set of cases *completely* (a generator of JSON-able
cases, in simplest-first order) and judges each one with judge(case), which runs
the real xlrd code and the reference model and returns a Result:
    Result.fail     None, or a text describing the disagreement
    Result.outcome  hashable summary of what was observed (to show the space is
                    not vacuous: number of distinct outcomes is reported)
    Result.nontrivial  bool
A Space that is a state graph overrides explore() and reports states and
transitions instead.

Nothing is sampled: VERIF_SEED only rotates the order in which shards are handed
to workers; every case is always executed.
"""
import collections, hashlib, json, multiprocessing, multiprocessing.connection, os, resource, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XLRD_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_NPROC", "0")) or min(8, os.cpu_count() or 1)
STOP_AFTER = 300        # seconds; once a violation is known the exploration ends then
MAX_VIOL = 8            # stop a space after this many distinct violations


def setup_import():
    """Import xlrd from the repository's current working tree, never from bytecode."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/pycache"
    if sys.path[:1] != [REPO]:
        sys.path.insert(0, REPO)
    import xlrd
    real = os.path.realpath(xlrd.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("harness error: xlrd imported from %s" % real)
    return xlrd


class Result(object):
    __slots__ = ("fail", "outcome", "nontrivial", "evals", "finding", "steps")

    def __init__(self, fail=None, outcome=None, nontrivial=True, evals=1, finding=None, steps=0):
        self.fail = fail
        self.steps = steps       # transitions taken by the model along this execution
        self.outcome = outcome
        self.nontrivial = nontrivial
        self.evals = evals
        self.finding = finding   # key of a potential known finding


class Hang(Exception):
    pass


_armed = dict(cpu=0.0, wall=0.0, limit=0.0)


def arm(limit):
    """Start (or, with 0, stop) the clock of one case."""
    if limit:
        _armed.update(cpu=time.process_time(), wall=time.monotonic(), limit=limit)
    signal.setitimer(signal.ITIMER_REAL, limit)


def _alarm(signum, frame):
    # A process that got little processor time on a busy machine is not hanging yet.
    limit = _armed["limit"]
    if time.process_time() - _armed["cpu"] < 0.5 * limit and time.monotonic() - _armed["wall"] < max(1.5 * limit, min(6 * limit, 200)):
        signal.setitimer(signal.ITIMER_REAL, max(limit / 2, 1))
        return
    raise Hang("no result within the time limit for one case")


class Space(object):
    """A finite space of cases, enumerated completely."""
    name = "space"
    bound = ""
    case_limit = 20          # seconds for one case before it counts as a hang
    batch = 1                # cases per hand-out (only a scheduling matter)
    sample_count = 2
    malformed = False        # are there workbooks among the cases that no writer would produce?

    def __init__(self, name=None, gen=None, judge=None, case_limit=None, bound=None):
        if name: self.name = name
        if gen: self.gen = gen
        if judge: self.judge = judge
        if case_limit: self.case_limit = case_limit
        if bound: self.bound = bound

    def gen(self):
        raise NotImplementedError

    def judge(self, case):
        raise NotImplementedError

    def setup(self):
        """Called once in each worker."""

    # -- one shard ---------------------------------------------------------
    def run_shard(self, shard, nshards):
        self.setup()
        st = dict(cases=0, evals=0, nontrivial=0, outcomes=set(), samples=[], viol=[],
                  distinct=set(), findings={})
        signal.signal(signal.SIGALRM, _alarm)
        steps = 0
        for i, case in enumerate(self.gen()):
            if i % nshards != shard:
                continue
            st["cases"] += 1
            res = self.run_case(case)
            st["evals"] += res.evals
            steps += res.steps
            if res.nontrivial:
                st["nontrivial"] += 1
                st["distinct"].add(hashlib.blake2b(repr(case).encode("utf8", "backslashreplace"), digest_size=8).digest())
            if res.outcome is not None and len(st["outcomes"]) < 200000:
                st["outcomes"].add(hashlib.blake2b(repr(res.outcome).encode("utf8", "backslashreplace"), digest_size=8).digest())
            if len(st["samples"]) < self.sample_count and shard == 0 and (i in (0,) or res.nontrivial):
                st["samples"].append(dict(space=self.name, case=jsonable(case), outcome=short(repr(res.outcome))))
            if res.fail:
                if res.finding is not None and is_known(res.finding):
                    st["findings"].setdefault(res.finding, short(res.fail))
                    continue
                st["viol"].append(dict(space=self.name, index=i, case=jsonable(case), fail=res.fail, finding=res.finding))
                if len(st["viol"]) >= MAX_VIOL or res.outcome == "hang":
                    break
        if steps:
            st["counts"] = dict(transitions=steps)
        return st

    def run_case(self, case):
        arm(self.case_limit)
        try:
            return self.judge(case)
        except Hang as e:
            return Result(fail="HANG: %s" % e, outcome="hang")
        except MemoryError:
            return Result(fail="MEMORY: memory exhausted by one case", outcome="memory")
        except Exception as e:
            return Result(fail="unexpected %s: %s\n%s" % (type(e).__name__, e, short_tb()), outcome="exc")
        finally:
            arm(0)


def short_tb():
    lines = traceback.format_exc().strip().splitlines()
    return "\n".join(lines[-14:])


def short(s, n=400):
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


def jsonable(x):
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x
    if isinstance(x, bytes):
        return {"hex": x.hex()}
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    return repr(x)


_known = None
_known_prop = None


def load_known(prop):
    """KNOWN_FINDINGS.txt lines: `finding: property=<id> key=<key> <text>` or `fixed: ...`."""
    global _known, _known_prop
    _known, _known_prop = {}, prop
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            parts = line.split(None, 3)
            if len(parts) >= 3 and parts[1] == "property=" + prop and parts[2].startswith("key="):
                _known[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return _known


def is_known(key):
    return _known is not None and key in _known


def _worker(args):
    modname, tier, idx, shard, nshards = args
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except Exception:
        pass
    check = load_check(modname)
    load_known(check.ID)
    space = check.spaces(tier)[idx]
    t = time.time()
    try:
        st = space.run_shard(shard, nshards)
    except Hang:
        st = dict(cases=0, evals=0, nontrivial=0, outcomes=set(), samples=[], distinct=set(), findings={},
                  viol=[dict(space=space.name, index=-1, case=None, fail="HANG outside a case", finding=None)])
    st["wall"] = time.time() - t
    return idx, shard, st


def load_check(modname):
    import importlib
    sys.path.insert(0, VERIF)
    return importlib.import_module("checks." + modname)


def _run_pool(jobs, nproc):
    """Run jobs in forked worker processes; a worker that dies is reported, not waited for."""
    ctx = multiprocessing.get_context("fork")
    pending = collections.deque(jobs)
    running = {}
    results = []
    t0 = time.time()
    bad = False
    while pending or running:
        if bad and time.time() - t0 > STOP_AFTER:
            # a violation is known: no need to go on (broken code is often slow code)
            for p, job in running.values():
                p.terminate()
            for p, job in running.values():
                p.join()
            break
        while pending and len(running) < nproc:
            job = pending.popleft()
            r, w = ctx.Pipe(False)

            def target(job=job, w=w):
                try:
                    out = ("ok", _worker(job))
                except BaseException:
                    out = ("err", traceback.format_exc())
                w.send(out)
                w.close()
                os._exit(0)
            p = ctx.Process(target=target)
            p.start()
            w.close()
            running[r] = (p, job)
        ready = multiprocessing.connection.wait(list(running), timeout=5)
        for r in ready:
            p, job = running.pop(r)
            try:
                kind, val = r.recv()
            except EOFError:
                kind, val = "died", "worker for %r ended without a result (exit code %r)" % (job, p.exitcode)
            p.join()
            r.close()
            results.append((kind, job, val))
            bad = bad or kind == "died" or (kind == "ok" and bool(val[2]["viol"]))
    return results


def main(argv):
    modname, tier = argv[0].lower(), argv[1]
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    setup_import()
    check = load_check(modname)
    load_known(check.ID)
    if len(argv) > 2 and argv[2] == "--replay":
        return replay(check, tier, argv[3])
    t0 = time.time()
    spaces = check.spaces(tier)
    only = os.environ.get("VERIF_SPACE")
    jobs = []
    for idx, sp in enumerate(spaces):
        if only and only not in sp.name:
            continue
        n = getattr(sp, "nshards", NPROC)
        for s in range(n):
            jobs.append((modname, tier, idx, s, n))
    k = seed % max(1, len(jobs))
    jobs = jobs[k:] + jobs[:k]
    results = _run_pool(jobs, NPROC)
    cov = dict(exhaustive=True)
    agg = {}
    viol, errors = [], []
    findings = {}
    outcomes = set()
    distinct = 0
    samples = []
    tot = collections.Counter()
    for kind, job, val in results:
        if kind == "died":
            # the code under test took the worker down (stack/heap exhaustion): a violation of that space
            viol.append(dict(space=spaces[job[2]].name, index=-1, case=None, fail=val, finding=None))
            continue
        if kind == "err":
            errors.append(val)
            continue
        idx, shard, st = val
        a = agg.setdefault(idx, dict(cases=0, evals=0, nontrivial=0, distinct=set(), outcomes=set(), wall=0.0))
        for key in ("cases", "evals", "nontrivial"):
            a[key] += st[key]
        a["distinct"] |= st["distinct"]
        a["outcomes"] |= st["outcomes"]
        a["wall"] += st["wall"]
        for key, v in st.get("counts", {}).items():
            tot[key] += v
        samples.extend(st["samples"])
        viol.extend(st["viol"])
        findings.update(st["findings"])
    if errors:
        sys.stderr.write("harness error in %s:\n%s\n" % (modname, errors[0]))
        return 2
    cov["spaces"] = []
    ev = 0
    for idx in sorted(agg):
        a = agg[idx]
        sp = spaces[idx]
        cov["spaces"].append(dict(name=sp.name, bound=sp.bound, cases=a["cases"], evaluations=a["evals"],
                                  distinct_nontrivial=len(a["distinct"]), distinct_outcomes=len(a["outcomes"]),
                                  cpu_s=round(a["wall"], 2)))
        ev += a["evals"]
        distinct += len(a["distinct"])
        tot["outcomes"] += len(a["outcomes"])
    if check.LEVEL == "model_checking":
        graph_ev = tot.pop("traces", 0)
        cov["states"] = tot.pop("states", 0) + sum(len(a["outcomes"]) for i, a in agg.items() if not isinstance(spaces[i], Graph))
        cov["transitions"] = tot.pop("transitions", 0)
        cov["traces_validated_against_impl"] = ev
        cov["state_rule"] = getattr(check, "STATE_RULE", "")
        tot.pop("outcomes", 0)
    else:
        cov["evaluations"] = ev
        cov["distinct_outcomes"] = tot.pop("outcomes", 0)
    cov["distinct_nontrivial"] = distinct
    cov["rule"] = check.RULE
    cov["samples"] = samples[:12]
    for k2, v in tot.items():
        cov[k2] = v
    viol.sort(key=lambda v: (v["index"] if v["index"] >= 0 else 1 << 60))
    if viol:
        cov["exhaustive"] = False
    wall = time.time() - t0
    evidence = dict(property=check.ID, tier=tier, seed=seed, level=check.LEVEL, coverage=cov,
                    assumptions=list(getattr(check, "ASSUMPTIONS", [])), wall_s=round(wall, 2),
                    violations=len(viol))
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (check.ID, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % check.ID))
    for key in sorted(findings):
        print("KNOWN-FINDING: property=%s key=%s %s" % (check.ID, key, (_known.get(key) or findings[key]).splitlines()[0]))
    print("%s %s: %d cases/evaluations, %d distinct non-trivial, %d distinct outcomes, %d spaces, %.1fs" % (
        check.ID, tier, ev, distinct, sum(len(a["outcomes"]) for a in agg.values()), len(agg), wall))
    if os.environ.get("VERIF_VERBOSE"):
        for s in cov["spaces"]:
            print("   ", s)
    if viol:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(viol[:5]):
            path = os.path.join(d, "%s-%d.json" % (check.ID, n))
            v = dict(v, property=check.ID, module=modname, tier=tier,
                     how="cd /verif && ./run %s %s --replay %s" % (modname, tier, path))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("  [%s] case #%s: %s" % (v["space"], v["index"], short(json.dumps(v["case"]), 600)))
            print("      " + short(v["fail"], 1500).replace("\n", "\n      "))
            print("VIOLATION property=%s replay=%s" % (check.ID, path))
        return 1
    return 0


def replay(check, tier, path):
    """Run one recorded case again, without the explorer's other cases."""
    v = json.load(open(path))
    for sp in check.spaces(tier):
        if sp.name != v["space"]:
            continue
        sp.setup()
        signal.signal(signal.SIGALRM, _alarm)
        if hasattr(sp, "replay"):
            res = sp.replay(v["case"])
        else:
            res = None
            for i, case in enumerate(sp.gen()):
                if i == v["index"]:
                    assert jsonable(case) == v["case"], "the enumeration changed since the replay was written"
                    res = sp.run_case(case)
                    break
        print("case:", short(json.dumps(v["case"]), 4000))
        if res is None:
            print("case not found")
            return 2
        print("result:", res.fail or "held")
        if res.fail:
            print("VIOLATION property=%s replay=%s" % (check.ID, path))
            return 1
        return 0
    print("no such space")
    return 2


class Graph(Space):
    """Explicit-state breadth-first search over histories of the real object.

    init()                 -> iterable of initial configurations (JSON-able)
    build(cfg, hist)       -> run the history on a fresh real object, comparing every step with the
                              reference model; returns (key, failure): key is the canonical state
    events(cfg, key)       -> finite menu of events enabled in a state
    """
    nshards = 1
    max_depth = 12

    def init(self):
        raise NotImplementedError

    def run_shard(self, shard, nshards):
        self.setup()
        signal.signal(signal.SIGALRM, _alarm)
        st = dict(cases=0, evals=0, nontrivial=0, outcomes=set(), samples=[], viol=[], distinct=set(), findings={})
        states = trans = 0
        maxd = 0
        for ci, cfg in enumerate(self.init()):
            if ci % nshards != shard:
                continue
            k0, f = self.step(cfg, [])
            if f:
                self._viol(st, cfg, [], f)
                continue
            seen = {k0}
            frontier = collections.deque([(k0, [])])
            while frontier and len(st["viol"]) < MAX_VIOL:
                key, hist = frontier.popleft()
                maxd = max(maxd, len(hist))
                if len(hist) >= self.max_depth:
                    st["capped"] = True
                    continue
                for ev in self.events(cfg, key):
                    trans += 1
                    h2 = hist + [ev]
                    k2, f = self.step(cfg, h2)
                    st["distinct"].add(hashlib.blake2b(repr((cfg, h2)).encode(), digest_size=8).digest())
                    if f:
                        self._viol(st, cfg, h2, f)
                        if len(st["viol"]) >= MAX_VIOL:
                            break
                        continue
                    if k2 not in seen:
                        seen.add(k2)
                        frontier.append((k2, h2))
            states += len(seen)
            for k in seen:
                st["outcomes"].add(hashlib.blake2b(repr((k)).encode(), digest_size=8).digest())
            if len(st["samples"]) < 3:
                st["samples"].append(dict(space=self.name, config=jsonable(cfg), states=len(seen),
                                          deepest_history=jsonable(hist)))
        st["cases"] = st["evals"] = st["nontrivial"] = trans
        st["counts"] = dict(states=states, transitions=trans, traces=trans)
        return st

    def _viol(self, st, cfg, hist, f):
        st["viol"].append(dict(space=self.name, index=len(hist), case=dict(config=jsonable(cfg), history=jsonable(hist)),
                               fail=f, finding=None))

    def step(self, cfg, hist):
        arm(self.case_limit)
        try:
            return self.build(cfg, hist)
        except Hang as e:
            return None, "HANG: %s" % e
        except Exception as e:
            return None, "unexpected %s: %s\n%s" % (type(e).__name__, e, short_tb())
        finally:
            arm(0)

    def replay(self, case):
        k, f = self.step(case["config"], case["history"])
        return Result(fail=f)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
