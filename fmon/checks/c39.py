"""C39: pipelines running in several threads do not influence each other."""
import hashlib
import os
import random
import sys
import threading
import time
import numpy as np
import scipy.sparse as sp
from .. import env, gen
from .c28 import snap, diff

ID = "C39"
RULE = ("two to four pipelines (13 planar families, 2-12 fibers, or copies of one another) run one after the other, then at the same time in as many threads, all stages from constructor to exports, "
        "several times with the thread switched at once, at random executed lines of the library and between stages; every result compared bitwise with the one of the pipeline alone; "
        "the order in which lines of the library were executed by the threads is recorded; non-trivial = new order with at least 20 switches inside the library")
NEED = {"concurrent runs": 60, "threads": 200, "stages": 1500, "switches inside the library": 20000, "results compared": 1500, "overlapping stages": 1500, "overlapping solves": 60,
        "shared inputs": 10}
ASSUMPTIONS = ["fiber sets are made from tables (generation seeds NumPy's global generator, as documented)", "each thread has tables of its own (pandas)", "no figures (pyplot is global)"]


def cases(rng, tier):
    k = 64 if tier == "quick" else 900
    for i in range(k):
        m = int(rng.integers(2, 5))
        jobs = []
        for j in range(m):
            s = gen.solve_spec(rng, 2, 12)
            s["opts"]["itermax"] = 8
            jobs.append(s)
        if i % 5 == 4:
            # the same material in every thread, other options
            jobs = [dict(jobs[0], opts=dict(jobs[0]["opts"], coupling=[.9, .5, .99, .2][j])) for j in range(m)]
        yield {"jobs": jobs, "seed": int(rng.integers(2 ** 31)), "n": sum(j["n"] for j in jobs), "runs": 2 if tier == "quick" else 4}


# -- one pipeline -----------------------------------------------------------
def pipeline(case, table, stage):
    """Every stage through `stage(name, function)`; name -> digest."""
    import fibermat as fm
    out = {}

    def do(name, f):
        x = stage(name, f)
        out[name] = snap(x)
        return x
    o = case["opts"]
    ko = {k: o[k] for k in ("lmin", "lmax", "coupling")}
    m = do("Mat", lambda: fm.Mat(table, copy=True))
    n = do("Net", lambda: fm.Net(m, periodic=case["periodic"]))
    s = do("Stack", lambda: fm.Stack(m, n, threshold=case["threshold"]))
    g = do("Mesh", lambda: fm.Mesh(s))
    do("check", lambda: [type(t).check(t) for t in (m, n, s, g)])
    do("stiffness", lambda: fm.stiffness(m, g, **ko))
    do("constraint", lambda: fm.constraint(m, g))
    size = [None, 5][case["seed"] % 2]
    try:
        res = do("solve", lambda: fm.solve(m, g, packing=o["packing"], itermax=8, interp_size=size, verbose=False, **ko))
        d = [*res[2](1).reshape(-1, 2).T, *(res[3](1) @ res[1]).reshape(-1, 2).T]
    except ZeroDivisionError:
        d = []
    do("vtk_mat", lambda: fm.vtk_mat(m, verbose=False, z_resolution=3))
    do("vtk_mesh", lambda: fm.vtk_mesh(m, g, *d, verbose=False, z_resolution=3))
    y = np.arange(12.).reshape(4, 3) * case["n"]
    do("Interpolate", lambda: [fm.Interpolate(y, size=size)(t) for t in (0., .3, 1.)])
    return out


class Switcher:
    """Switch threads at random executed lines of the library, and record who executed them."""

    def __init__(self, seed, p):
        self.src = os.path.realpath(os.path.join(env.REPO, "src")) + os.sep
        self.r, self.p, self.inside = random.Random(seed), p, {}
        self.last, self.switches, self.h, self.lines = None, 0, hashlib.blake2b(digest_size=8), 0

    def call(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f not in self.inside:
            self.inside[f] = os.path.realpath(f).startswith(self.src)
        return self.line if self.inside[f] else None

    def line(self, frame, event, arg):
        if event == "line":
            t = threading.current_thread().name
            self.lines += 1
            if t != self.last:
                self.last = t
                self.switches += 1
                self.h.update(("%s%d" % (t, frame.f_lineno)).encode())
            if self.r.random() < self.p:
                time.sleep(self.r.choice([0, 0, 1e-5, 1e-4]))
        return self.line


def run(case, mon):
    jobs = case["jobs"]
    tables = [gen.table(c) for c in jobs]
    before = [snap(t) for t in tables]
    alone = [pipeline(c, t, lambda name, f: f()) for c, t in zip(jobs, tables)]
    old = sys.getswitchinterval()
    for k in range(case["runs"]):
        p = [.05, .3, .01, .8][(case["seed"] + k) % 4]
        sw = Switcher(case["seed"] + k, p)
        ev = []
        lock = threading.Lock()
        got, failed = [None] * len(jobs), [None] * len(jobs)
        go = threading.Barrier(len(jobs))

        def stage(i):
            def f(name, g):
                with lock:
                    ev.append((i, name, 0))
                try:
                    return g()
                finally:
                    with lock:
                        ev.append((i, name, 1))
            return f

        def work(i):
            try:
                go.wait(60)
                sys.settrace(sw.call)
                got[i] = pipeline(jobs[i], tables[i], stage(i))
            except BaseException as e:
                failed[i] = e
            finally:
                sys.settrace(None)
        threads = [threading.Thread(target=work, args=(i,), name=str(i), daemon=True) for i in range(len(jobs))]
        try:
            sys.setswitchinterval(1e-5)
            for t in threads:
                t.start()
            for t in threads:
                t.join(200)
        finally:
            sys.setswitchinterval(old)
        if any(t.is_alive() for t in threads):
            raise TimeoutError("threads did not end")
        mon.ev("concurrent runs")
        mon.ev("threads", len(jobs))
        mon.ev("stages", len(ev) // 2)
        mon.ev("switches inside the library", sw.switches)
        active = {}
        for i, name, end in ev:
            if end:
                active.pop(i, None)
            else:
                mon.ev("overlapping stages", len(active))
                mon.ev("overlapping solves", name == "solve" and "solve" in active.values())
                active[i] = name
        mon.ev("shared inputs", len({str(c["seed"]) for c in jobs}) == 1)
        for i, e in enumerate(failed):
            mon.check(e is None, "a pipeline fails when others run in other threads: %s" % type(e).__name__, error=str(e)[:200], threads=len(jobs))
        for i, a in enumerate(alone):
            if got[i] is None:
                continue
            for name in a:
                mon.ev("results compared")
                mon.check(got[i].get(name) == a[name], "the result of %s depends on other threads" % name, parts=diff(got[i].get(name) or {}, a[name])[:5],
                          first=[n for n in a if got[i].get(n) != a[n]][:1], threads=len(jobs))
        for t, b in zip(tables, before):
            mon.check(snap(t) == b, "a table of another thread was changed")
        if sw.switches >= 20:
            mon.key(sw.h.hexdigest())
        mon.sample = {"threads": len(jobs), "stages": len(ev) // 2, "lines of the library executed": sw.lines, "switches between threads inside the library": sw.switches,
                      "begin": [list(e) for e in ev[:12]]}
