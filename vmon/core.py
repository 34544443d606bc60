"""Monitoring core: runs the real svgio code of /repo under generated workloads and records what monitors saw.

A property module (vmon/props/cNN.py) provides
    ID                  property id
    RULE                how cases are made and what counts as non-trivial (evidence text)
    QUICK, THOROUGH     number of cases over all workers
    cases(rng)          endless generator of JSON-serialisable cases
    run(case, mon)      executes one case on the real code, reporting to the monitor
    corpus()            optional: fixed cases that are always run
    MIN                 optional: fewer distinct non-trivial cases than this is inconclusive
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = 8
CASE_SECONDS = 60  # wall clock watchdog per case; it decides nothing
CASE_CPU = 100  # seconds of processor time after which a case counts as not terminating (cases take well under one)


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key
        self.msg = msg


class Hang(BaseException):
    """Raised by the wall clock watchdog, cannot be swallowed by `except Exception`."""


class Monitor:
    """What the monitors observed in one worker."""

    def __init__(self):
        self.events = {}
        self.features = set()
        self.distinct = set()
        self.states = set()
        self.checks = 0
        self.case_hash = None

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def feat(self, *names):
        self.features.update(names)

    def state(self, *what):
        """A state of the observed object; the number of different ones is reported."""
        if len(self.states) < 200000:
            self.states.add(hash(repr(what)))

    def nontrivial(self, *what):
        """Marks the running case as non-trivial; `what` (or else the case itself) identifies it."""
        self.distinct.add(hash(repr(what)) if what else self.case_hash)

    def check(self, cond, key, msg=None, *args):
        self.checks += 1
        if not cond:
            if callable(msg):
                msg = msg()
            elif args:
                msg = msg % args
            raise Violation(key, msg or key)

    def fail(self, key, msg):
        raise Violation(key, msg)


# -- the code under observation -------------------------------------------------------------------


def load_target():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for m in [m for m in sys.modules if m == "svgio" or m.startswith("svgio.")]:
        del sys.modules[m]
    import svgio.path
    import svgio.nodes
    import svgio.basic

    where = os.path.realpath(svgio.__file__)
    assert where.startswith(os.path.realpath(REPO) + os.sep), where


class LineCoverage:
    """Which svgio lines the workload reached (sys.monitoring, each line reported once)."""

    def __init__(self):
        self.lines = set()
        self.on = False

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        root = os.path.join(os.path.realpath(REPO), "svgio") + os.sep
        lines = self.lines

        def line(code, number):
            if code.co_filename.startswith(root):
                lines.add((os.path.basename(code.co_filename), number))
            return mon.DISABLE

        try:
            mon.use_tool_id(3, "vmon")
        except ValueError:
            return
        mon.register_callback(3, mon.events.LINE, line)
        mon.set_events(3, mon.events.LINE)
        self.on = True

    def stop(self):
        if self.on:
            sys.monitoring.set_events(3, 0)
            sys.monitoring.free_tool_id(3)
            self.on = False


def _alarm(signum, frame):
    raise Hang()


class Cpu(BaseException):
    pass


def _cpu(signum, frame):
    raise Cpu()


def _where(exc):
    """Function of the innermost svgio frame of an exception (a mechanism, not a case)."""
    name = "?"
    for fr in traceback.extract_tb(exc.__traceback__):
        if os.sep + "svgio" + os.sep in fr.filename:
            name = fr.name
    return name


def run_case(prop, case, mon):
    """Runs one case. Returns None or (key, message)."""
    mon.case_hash = int.from_bytes(
        hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).digest(), "big"
    )
    random.seed(mon.case_hash)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    try:
        prop.run(case, mon)
        return None
    except Violation as v:
        return v.key, v.msg
    except Hang:
        signal.setitimer(signal.ITIMER_REAL, 0)
        mon.ev("watchdog")
    except Exception as e:
        return (
            "exception:%s:%s" % (type(e).__name__, _where(e)),
            "".join(traceback.format_exception(e))[-3000:],
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    # The wall clock alone decides nothing: run again with a limit on processor time.
    signal.signal(signal.SIGPROF, _cpu)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    signal.setitimer(signal.ITIMER_REAL, 3 * CASE_CPU)
    try:
        prop.run(case, Monitor())
        return None
    except Cpu:
        return "hang", "not finished after %d s of processor time" % CASE_CPU
    except Violation as v:
        return v.key, v.msg
    except Hang:
        mon.ev("undecided_watchdog")
        return None
    except Exception as e:
        return "exception:%s:%s" % (type(e).__name__, _where(e)), "".join(traceback.format_exception(e))[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


_scratch = None


def scratch():
    """A directory for the files of this run; made before the workers start, removed at the end of the run."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vmon-")
    return _scratch


def drop_scratch():
    global _scratch
    if _scratch is not None:
        shutil.rmtree(_scratch, True)
        _scratch = None


# -- workers --------------------------------------------------------------------------------------


def worker(prop_name, seed, shard, shards, count, deadline, known, queue):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(3000)
    warnings.simplefilter("ignore")
    cov = LineCoverage()
    try:
        load_target()
        prop = importlib.import_module("vmon.props." + prop_name)
        cov.start()
        mon = Monitor()
        rng = random.Random("%s:%s:%s" % (seed, prop.ID, shard))
        fixed = list(prop.corpus()) if hasattr(prop, "corpus") else []
        fixed = fixed[shard::shards]
        gen = prop.cases(rng)
        evaluations = 0
        violations = []
        knowns = {}
        samples = []
        truncated = False
        for i in range(len(fixed) + count):
            if time.time() > deadline:
                truncated = True
                break
            case = fixed[i] if i < len(fixed) else next(gen)
            evaluations += 1
            if i in (len(fixed), len(fixed) + 7):
                samples.append(case)
            r = run_case(prop, case, mon)
            if r is not None:
                key, msg = r
                if key in known:
                    knowns[key] = knowns.get(key, 0) + 1
                    continue
                violations.append((key, msg, case))
                if len(violations) >= 3 or key == "hang":
                    break
        cov.stop()
        queue.put(
            dict(
                ok=True, shard=shard, evaluations=evaluations, violations=violations, known=knowns,
                events=mon.events, features=sorted(mon.features), distinct=list(mon.distinct),
                states=list(mon.states), checks=mon.checks, samples=samples[:1], truncated=truncated,
                lines=sorted(cov.lines),
            )
        )
    except BaseException as e:
        queue.put(dict(ok=False, shard=shard, error="".join(traceback.format_exception(e))))


def load_known(prop_id):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return {e["key"]: e["what"] for e in data["known"] if e["property"] == prop_id}


def run_property(name, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, VERIF)
    load_target()
    prop = importlib.import_module("vmon.props." + name)
    total = prop.QUICK if tier == "quick" else prop.THOROUGH
    cap = 240 if tier == "quick" else 780
    workers = min(WORKERS, max(1, total))
    known = load_known(prop.ID)
    if getattr(prop, "FILES", False):
        scratch()
    ctx = multiprocessing.get_context("fork")
    queue = ctx.Queue()
    deadline = t0 + cap
    procs = []
    for i in range(workers):
        n = total // workers + (1 if i < total % workers else 0)
        p = ctx.Process(target=worker, args=(name, seed, i, workers, n, deadline, known, queue), daemon=True)
        p.start()
        procs.append(p)
    results = []
    lost = 0
    hard = deadline + 400
    while len(results) + lost < workers:
        try:
            results.append(queue.get(timeout=1))
            continue
        except Exception:
            pass
        dead = sum(1 for p in procs if not p.is_alive())
        if dead == workers and queue.empty():
            time.sleep(0.5)
            while not queue.empty():
                results.append(queue.get())
            lost = workers - len(results)
        if time.time() > hard:
            lost = workers - len(results)
    for p in procs:
        if p.is_alive():
            p.terminate()
    drop_scratch()
    errors = [r["error"] for r in results if not r["ok"]]
    good = [r for r in results if r["ok"]]
    events, features, distinct, states, lines, knowns = {}, set(), set(), set(), set(), {}
    for r in good:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["known"].items():
            knowns[k] = knowns.get(k, 0) + v
        features.update(r["features"])
        distinct.update(r["distinct"])
        states.update(r["states"])
        lines.update(map(tuple, r["lines"]))
    evaluations = sum(r["evaluations"] for r in good)
    violations = [v for r in sorted(good, key=lambda r: r["shard"]) for v in r["violations"]]
    per_file = {}
    for f, _ in lines:
        per_file[f] = per_file.get(f, 0) + 1
    coverage = dict(
        evaluations=evaluations,
        distinct_nontrivial=len(distinct),
        rule=prop.RULE,
        samples=[_short(s) for r in good[:3] for s in r["samples"]],
        monitor_evaluations=sum(r["checks"] for r in good),
        events=dict(sorted(events.items())),
        features_seen=sorted(features)[:400],
        distinct_features=len(features),
        distinct_states=len(states),
        svgio_lines_executed=per_file,
        truncated_by_time=any(r["truncated"] for r in good),
        known_findings_seen=knowns,
    )
    if os.environ.get("VMON_LINES"):
        with open(os.path.join(os.environ["VMON_LINES"], prop.ID + ".lines"), "w") as f:
            json.dump(sorted(lines), f)
    assumptions = list(getattr(prop, "ASSUMPTIONS", []))
    ev = dict(
        property=prop.ID, tier=tier, seed=seed, level="exploration", coverage=coverage,
        assumptions=assumptions, wall_s=round(time.time() - t0, 3), violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for key, n in sorted(knowns.items()):
        print("KNOWN-FINDING: property=%s %s (%s, seen %d times)" % (prop.ID, known[key], key, n))
    print(
        "%s %s: %d cases, %d distinct non-trivial, %d monitor evaluations, %d events, %d states, %.1fs"
        % (prop.ID, tier, evaluations, len(distinct), coverage["monitor_evaluations"], sum(events.values()),
           len(states), ev["wall_s"])
    )
    if violations:
        seen = set()
        for i, (key, msg, case) in enumerate(violations):
            if key in seen and len(seen) > 0:
                continue
            seen.add(key)
            path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (prop.ID, i))
            with open(path, "w") as f:
                json.dump(dict(property=prop.ID, key=key, message=msg, case=case, seed=seed, tier=tier), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop.ID, path))
            print("  %s: %s" % (key, "\n  ".join(str(msg)[-1800:].splitlines()[-12:])))
            print("  case: %s" % json.dumps(case)[:1500])
        return 1
    if errors or lost:
        for e in errors:
            print("MONITOR ERROR\n" + e)
        print("INCONCLUSIVE: %d workers failed, %d lost" % (len(errors), lost))
        return 2
    need = getattr(prop, "MIN", 50)
    if len(distinct) < need:
        print("INCONCLUSIVE: only %d distinct non-trivial cases observed, %d needed" % (len(distinct), need))
        return 2
    if events.get("undecided_watchdog", 0):
        print("INCONCLUSIVE: %d cases undecided by the processor time limit" % events["undecided_watchdog"])
        return 2
    return 0


def _short(case):
    s = json.dumps(case)
    return case if len(s) < 3000 else s[:3000] + "..."


def replay(path):
    sys.path.insert(0, VERIF)
    load_target()
    sys.setrecursionlimit(3000)
    with open(path) as f:
        data = json.load(f)
    prop = importlib.import_module("vmon.props." + data["property"].lower())
    mon = Monitor()
    r = run_case(prop, data["case"], mon)
    drop_scratch()
    print("events:", mon.events, "monitor evaluations:", mon.checks)
    if r is None:
        print("no violation on replay")
        return 0
    print("VIOLATION property=%s replay=%s" % (data["property"], path))
    print("  %s: %s" % r)
    return 1
