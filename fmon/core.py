"""Monitors, case runner, verdicts and evidence.

A check module defines
    ID            property id
    RULE          how cases are made, and what makes one non-trivial
    NEED          {event name: minimal count} below which the run is inconclusive
    cases(rng, tier) -> iterable of JSON-able dicts (each fully describes one execution)
    run(case, mon)   executes the real code on the case and feeds the monitor
"""
import collections, contextlib, hashlib, io, itertools, json, os, signal, sys, time, traceback
import concurrent.futures as cf
from concurrent.futures.process import BrokenProcessPool
import multiprocessing as mp

from . import env

LIMIT_CASE = 240      # s, watchdog per case: inconclusive, never a violation
STOP = int(os.environ.get("FMON_STOP", "6"))  # violating executions after which a run ends
BUDGET = {"quick": 200., "thorough": 780.}
WORKERS = int(os.environ.get("FMON_WORKERS", "8"))


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    """The harness itself is at fault."""


MALFORMED = (LookupError, ValueError, TypeError, AttributeError, AssertionError, ArithmeticError)


class Stop(Exception):
    """Abandon the current case (already recorded)."""


class Monitor:
    """Collects what one execution showed."""

    def __init__(self):
        self.events = collections.Counter()
        self.keys = set()
        self.violations = []
        self.known = collections.Counter()
        self.notes = collections.Counter()
        self.sample = None
        self.nontrivial = False

    # -- observations -------------------------------------------------------
    def ev(self, name, n=1):
        self.events[name] += int(n)

    def key(self, *a):
        """Register a distinct observed state."""
        self.keys.add(hashlib.blake2b(repr(a).encode(), digest_size=8).hexdigest())
        self.nontrivial = True

    def note(self, name, n=1):
        self.notes[name] += int(n)

    # -- verdicts -----------------------------------------------------------
    def check(self, cond, what, **witness):
        self.events["assertions"] += 1
        if not bool(cond):
            self.violate(what, **witness)
            return False
        return True

    def violate(self, what, **witness):
        if len(self.violations) < 20:
            self.violations.append({"what": what, "witness": jsonable(witness)})

    def known_finding(self, fid, what, **witness):
        """A deviation with the mechanism of finding `fid`."""
        self.known[fid] += 1
        self.events["known:" + fid] += 1

    def near(self, a, b, tol, what, **witness):
        """Componentwise |a - b| <= tol (same infinities and shapes)."""
        import numpy as np
        self.events["assertions"] += 1
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            self.violate(what + " (shape)", got=a.shape, expected=b.shape, **witness)
            return False
        if a.size == 0:
            return True
        with np.errstate(all="ignore"):
            ok = (a == b) | (np.abs(a - b) <= tol)
        if not ok.all():
            i = np.unravel_index(np.argmin(ok), ok.shape)
            self.violate(what, index=i, got=a[i], expected=b[i], bad=int((~ok).sum()), **witness)
            return False
        return True

    def raises(self, exc, fun, what, **witness):
        """`fun` must raise exactly one of the documented classes."""
        self.events["assertions"] += 1
        try:
            fun()
        except CaseTimeout:
            raise
        except BaseException as e:
            if isinstance(e, exc):
                return True
            self.violate(what + ": raised %s instead of %s" % (type(e).__name__, exc), error=str(e)[:200], **witness)
            return False
        self.violate(what + ": accepted", expected=str(exc), **witness)
        return False


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.ravel()[:60].tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if np.isfinite(x) else str(x)
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    return str(x)[:300]


def in_repo(tb):
    src = tuple(os.path.realpath(os.path.join(env.REPO, x)) for x in ("src", "widgets.py", "main.py", "scripts", "jupyter-notebook.ipynb", "README.md", "docs"))
    return any(os.path.realpath(f.filename).startswith(src) for f in traceback.extract_tb(tb))


def run_case(mod, case):
    """Execute one case in this process. Returns a plain dict."""
    import warnings
    import numpy as np
    mon = Monitor()
    out = {"case": case, "error": None, "timeout": False}
    t0 = time.time()

    def alarm(*a):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, LIMIT_CASE)
    # Other users of the global generator: arbitrary but replayable state
    np.random.seed(int(case.get("seed", 0)) % 2 ** 32)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter("ignore")
            mod.run(case, mon)
    except Stop:
        pass
    except CaseTimeout:
        out["timeout"] = True
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if in_repo(e.__traceback__):
            mon.violate("the code failed on a valid input: %s: %s" % (type(e).__name__, str(e)[:200]), traceback=tb)
        elif isinstance(e, MALFORMED) and not isinstance(e, (HarnessError, np.linalg.LinAlgError)):
            # (never seen on valid results: a column, entry or shape the documented result has is not there)
            mon.violate("the result cannot be read as documented: %s: %s" % (type(e).__name__, str(e)[:200]), traceback=tb)
        else:
            out["error"] = tb
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        plt = sys.modules.get("matplotlib.pyplot")
        if plt is not None:
            plt.close("all")
    out.update(events=dict(mon.events), keys=sorted(mon.keys), violations=mon.violations,
               known=dict(mon.known), notes=dict(mon.notes), sample=mon.sample,
               nontrivial=mon.nontrivial, wall=time.time() - t0)
    return out


_MOD = None


def _work(case):
    return run_case(_MOD, case)


def _init():
    """(Optional log of crashes of the interpreter.)"""
    d = os.environ.get("FMON_FAULTS")
    if d:
        import faulthandler
        faulthandler.enable(open(os.path.join(d, "fault.%d" % os.getpid()), "w"))


def isolated(ctx, case, times=3):
    """Execute one case in processes of its own, after a process of the pool died. None: they die too."""
    for _ in range(times):
        with cf.ProcessPoolExecutor(1, mp_context=ctx, initializer=_init) as ex:
            try:
                return ex.submit(_work, case).result()
            except BrokenProcessPool:
                pass
    return None


def known_findings():
    """Entries of /verif/known_findings.json: {"findings": [{id, property, what}], "fixed": [...]}"""
    p = os.path.join(env.VERIF, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def write_replay(pid, case, violations):
    d = os.path.join(env.OUT, "replays", pid)
    os.makedirs(d, exist_ok=True)
    blob = json.dumps({"property": pid, "case": case, "violations": violations}, indent=1, default=str)
    name = hashlib.blake2b(json.dumps(case, sort_keys=True, default=str).encode(), digest_size=6).hexdigest()
    p = os.path.join(d, name + ".json")
    with open(p, "w") as f:
        f.write(blob)
    return p


def main(mod, tier, seed, replay=None, budget=None, verbose=False):
    global _MOD
    _MOD = mod
    import numpy as np
    t0 = time.time()
    fm = env.load()
    pid = mod.ID
    listed = {f["id"]: f for f in known_findings()["findings"] if f["property"] == pid}
    # Exercise imports once before forking
    if hasattr(mod, "prepare"):
        mod.prepare()

    if replay:
        case = json.load(open(replay))["case"]
        r = run_case(mod, case)
        print(json.dumps({k: r[k] for k in ("violations", "known", "error", "timeout", "events")}, indent=1, default=str))
        bad = list(r["violations"]) + [k for k in r["known"] if k not in listed]
        if bad:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        return 2 if (r["error"] or r["timeout"]) else 0

    rng = np.random.default_rng([seed, int(pid[1:]), 0 if tier == "quick" else 1])
    cases = list(mod.cases(rng, tier))
    budget = budget or BUDGET[tier]
    events, notes, known = collections.Counter(), collections.Counter(), collections.Counter()
    keys, samples, bad, errors = set(), [], [], []
    n = nontrivial = timeouts = 0
    slow = 0.
    stopped = False
    it = iter(cases)
    ctx = mp.get_context("fork")
    crashes, dead = 0, []
    ex = cf.ProcessPoolExecutor(WORKERS, mp_context=ctx, initializer=_init)
    try:
        pending = {}

        def feed():
            nonlocal it, ex
            while len(pending) < 2 * WORKERS:
                try:
                    c = next(it)
                except StopIteration:
                    return
                try:
                    pending[ex.submit(_work, c)] = c
                except BrokenProcessPool:
                    # (seen again when the results are read; if nothing is pending, a new pool)
                    it = itertools.chain([c], it)
                    if pending:
                        return
                    ex = cf.ProcessPoolExecutor(WORKERS, mp_context=ctx, initializer=_init)
        feed()
        while pending:
            done, _ = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            again = []
            for d in done:
                c = pending.pop(d)
                try:
                    again.append((c, d.result()))
                except cf.CancelledError:
                    continue
                except BrokenProcessPool:
                    # the interpreter died (memory, or native code of a solver): every unfinished case again, each in a process of its own
                    crashes += 1
                    left = [c, *pending.values()]
                    pending.clear()
                    ex.shutdown(wait=True, cancel_futures=True)
                    ex = cf.ProcessPoolExecutor(WORKERS, mp_context=ctx, initializer=_init)
                    for c in left:
                        r = isolated(ctx, c)
                        if r is None:
                            dead.append(c)
                        else:
                            again.append((c, r))
                    break
            for c, r in again:
                n += 1
                events.update(r["events"]); notes.update(r["notes"]); known.update(r["known"])
                new = set(r["keys"]) - keys
                keys |= set(r["keys"])
                nontrivial += bool(r["nontrivial"] and new)
                slow = max(slow, r["wall"])
                if r["sample"] is not None and len(samples) < 4:
                    samples.append({"case": r["case"], "observed": jsonable(r["sample"])})
                if r["timeout"]:
                    timeouts += 1
                if r["error"]:
                    errors.append((r["case"], r["error"]))
                v = list(r["violations"])
                for fid in r["known"]:
                    if fid not in listed:
                        v.append({"what": "unlisted deviation " + fid, "witness": {}})
                if v:
                    bad.append((r["case"], v))
            if time.time() - t0 > budget or len(bad) >= STOP or len(errors) >= 6 or timeouts >= 8:
                if not stopped:
                    stopped = True
                    for p in list(pending):
                        if p.cancel():
                            pending.pop(p)
                    it = iter(())
            if not stopped:
                feed()
    finally:
        ex.shutdown(wait=True, cancel_futures=True)

    if len(dead) >= 4:
        # (a single one may be native code of the linear solver)
        bad += [(c, [{"what": "the interpreter crashes, three times out of three", "witness": {}}]) for c in dead]
    wall = time.time() - t0
    need = getattr(mod, "NEED", {})
    missing = {k: (events.get(k, 0), m) for k, m in need.items() if events.get(k, 0) < m}
    for fid, f in sorted(listed.items()):
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (pid, f["what"], known.get(fid, 0)))
    if not samples and cases:
        samples = [{"case": cases[0]}]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": nontrivial,
            "rule": mod.RULE,
            "samples": samples,
            "assertions_evaluated": events.get("assertions", 0),
            "distinct_states_seen": len(keys),
            "events": {k: v for k, v in sorted(events.items()) if k != "assertions"},
            "not_judged": dict(sorted(notes.items())),
            "cases_planned": len(cases),
            "timeouts": timeouts,
            "interpreter_crashes": {"seen": crashes, "repeated": len(dead)},
            "stopped_by_budget": stopped,
            "slowest_case_s": round(slow, 2),
            "monitors_required": need,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(env.OUT, "evidence"), exist_ok=True)
    with open(os.path.join(env.OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s seed=%d: %d/%d executions, %d distinct non-trivial, %d assertions, %d states, %.1f s" % (
        pid, tier, seed, n, len(cases), nontrivial, events.get("assertions", 0), len(keys), wall))
    if verbose:
        print(json.dumps(ev["coverage"]["events"], indent=1), dict(notes))
    if bad:
        # smallest witness first
        bad.sort(key=lambda b: len(json.dumps(b[0], default=str)) + 10 * (b[0].get("n") or 0))
        for case, v in bad[:3]:
            p = write_replay(pid, case, v)
            for w in v[:3]:
                print("  %s  %s" % (w["what"], json.dumps(w["witness"], default=str)[:1500]))
        p = write_replay(pid, *bad[0])
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if errors:
        print("INCONCLUSIVE: the harness failed\n", errors[0][0], "\n", errors[0][1])
        return 2
    if missing:
        print("INCONCLUSIVE: monitors not reached often enough (seen, needed):", missing)
        return 2
    if dead:
        print("INTERPRETER CRASHED on %d executions, which are not judged" % len(dead))
    if timeouts > max(1, n // 10):
        print("INCONCLUSIVE: %d of %d executions timed out" % (timeouts, n))
        return 2
    return 0
