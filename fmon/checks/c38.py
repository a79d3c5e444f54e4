"""C38: a call that fails or is interrupted anywhere leaves no trace; calls leave process-wide settings alone."""
import ast
import decimal
import gc
import io
import json
import locale
import logging
import os
import pickle
import random
import signal
import subprocess
import sys
import warnings
import contextlib
import numpy as np
import pandas as pd
import scipy.sparse as sp
from .. import env, gen
from .c28 import snap, diff, dup

ID = "C38"
RULE = ("each stage of a pipeline (13 planar families, 2-12 fibers) is called on its own, then interrupted at chosen executed lines of the library (a trace function raises "
        "there: another exception class each time), by a user function that fails at its k-th use, and by refused inputs; after every call the inputs, the process-wide settings "
        "(warnings, floating-point errors, random generators, printing, plotting and export options, files, figures, streams, environment) are compared with those before, and the call is "
        "made again and compared with the undisturbed one; non-trivial = new pair of stage and interrupted line")
STAGES = ["Mat", "new Mat", "Net", "pairs", "Stack", "Mesh", "stiffness", "constraint", "solve", "verbose solve", "resampled solve", "plot_system", "vtk_fiber", "vtk_mat", "vtk_mesh",
          "Interpolate", "evaluate", "check", "solve to an end", "empty"]
NEED = dict({"stage " + s: 8 for s in STAGES}, **{"interruptions": 1500, "user failures": 80, "other calls interrupted": 800, "end: error": 8, "end: singular": 8, "end: steps": 8, "end: none": 8, "refused inputs": 150, "settings compared": 4000, "snapshots compared": 8000,
            "repeated calls": 1500, "imports": 1})
ASSUMPTIONS = ["interruptions are not injected in cleanup code (finally, except, leaving a with statement)", "Mat() seeds NumPy's generator, as documented (nothing else uses it)"]


class Interruption(BaseException):
    """As KeyboardInterrupt: nobody expects it."""


KINDS = [Interruption, KeyboardInterrupt, MemoryError, SystemExit, OSError]


# -- process-wide settings --------------------------------------------------
def flat(d, pre=""):
    out = {}
    for k, v in d.items():
        out.update(flat(v, pre + str(k) + ".")) if isinstance(v, dict) else out.update({pre + str(k): repr(v)})
    return out


def settings(first=False):
    import matplotlib
    import pyvista as pv
    import scipy.sparse.linalg._dsolve.linsolve as ls
    from matplotlib import pyplot as plt
    from pandas._config import config as pc
    s = {"warning filters": list(map(repr, warnings.filters)), "showwarning": repr(warnings.showwarning), "floating-point errors": repr(np.geterr()),
         "floating-point error handler": repr(np.geterrcall()), "numpy printing": repr(sorted(np.get_printoptions().items(), key=str)),
         "pandas options": flat(pc._global_config), "matplotlib options": dict(map(lambda k: (k, repr(dict.__getitem__(matplotlib.rcParams, k))), list(dict.keys(matplotlib.rcParams)))),
         "matplotlib backend": matplotlib.get_backend(), "figures": plt.get_fignums(), "interactive": plt.isinteractive(), "directory": os.getcwd(), "environment": dict(os.environ),
         "NumPy's generator": repr([x.tolist() if isinstance(x, np.ndarray) else x for x in np.random.get_state()]), "Python's generator": hash(random.getstate()), "path": list(sys.path),
         "streams": [id(x) for x in (sys.stdout, sys.stderr, sys.stdin)], "signals": [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE)],
         "recursion limit": sys.getrecursionlimit(), "garbage collection": [gc.isenabled(), gc.get_threshold()], "locale": locale.setlocale(locale.LC_ALL), "decimal": repr(decimal.getcontext().prec),
         "hooks": [repr(sys.excepthook), repr(sys.displayhook)], "logging": [logging.root.level, len(logging.root.handlers), logging.root.manager.disable],
         "export theme": repr([pv.OFF_SCREEN, pv.BUILDING_GALLERY, pv.global_theme.name]), "sparse solver": [ls.useUmfpack.__dict__.get("u", None), ls.noScikit],
         "open files": sorted(os.listdir("/proc/self/fd"))[:-1] and len(os.listdir("/proc/self/fd")), "float printing": [np.float64(1.5).__repr__(), str(pd.Series([1.123456789]))]}
    return s


def settings_diff(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                out += ["%s: %s" % (k, x) for x in sorted(set(a[k]) | set(b[k])) if a[k].get(x) != b[k].get(x)]
            else:
                out.append(k)
    return out


# -- crash points -----------------------------------------------------------
_excluded = {}
_inside = {}


def excluded(path):
    """Lines where an interruption would hit cleanup code itself."""
    if path not in _excluded:
        bad = set()
        with open(path) as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            body = []
            if isinstance(n, (ast.With, ast.AsyncWith)):
                bad |= set(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, ast.Try):
                bad |= set(range(n.lineno, n.body[0].lineno))
                body = [*n.finalbody, *n.handlers]
            for b in body:
                bad |= set(range(b.lineno, b.end_lineno + 1))
        _excluded[path] = bad
    return _excluded[path]


class Tracer:
    """Record executed lines, or raise at the k-th executed line."""

    def __init__(self, at=None, exc=None):
        self.src = os.path.realpath(os.path.join(env.REPO, "src")) + os.sep
        self.lines, self.at, self.exc, self.n, self.fired = [], at, exc, 0, None

    def __enter__(self):
        sys.settrace(self.call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)

    def call(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f not in _inside:
            _inside[f] = os.path.realpath(f).startswith(self.src)
        if _inside[f]:
            return self.line

    def line(self, frame, event, arg):
        if event != "line" or self.fired:
            return self.line
        where = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
        if frame.f_lineno in excluded(frame.f_code.co_filename):
            return self.line
        if self.at is None:
            self.lines.append(where)
        elif self.n == self.at:
            self.fired = where
            raise self.exc("injected at line %d of %s" % where[::-1])
        self.n += 1
        return self.line


# -- cases ------------------------------------------------------------------
def cases(rng, tier):
    k = 100 if tier == "quick" else 2200
    for i in range(2):
        yield {"import": True, "seed": i, "n": 0}
    for i in range(k):
        s = gen.solve_spec(rng, 2, 9)
        s["opts"]["itermax"] = 6
        s["points"] = 3 if tier == "quick" else 5
        yield s


def prepare():
    """First uses of the libraries (lazy imports, first figures) before anything is compared."""
    from fibermat import Mat, Net, Stack, Mesh, solve, vtk_mat, vtk_mesh, stiffness, constraint, plot_system
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        m = Mat(4, length=5, size=6, tensile=1e3)
        g = Mesh(Stack(m, Net(m)))
        solve(m, g, packing=1.5, verbose=True)
        vtk_mesh(m, g, verbose=True)
        vtk_mat(m, verbose=True)
        plot_system(*stiffness(m, g), *constraint(m, g))
        plt.close("all")
    settings()


class Failing:
    """A user function that fails at its k-th use."""

    def __init__(self, f, k, exc):
        self.f, self.k, self.exc, self.n, self.failed = f, k, exc, 0, False

    def __call__(self, *a, **k):
        self.n += 1
        if self.n == self.k + 1:
            self.failed = True
            raise self.exc("user function failed")
        return self.f(*a, **k) if self.f is not None else None


def run(case, mon):
    if case.get("import"):
        return imported(case, mon)
    import fibermat as fm
    from matplotlib import pyplot as plt
    r = gen.rng_of(case, 38)
    o = case["opts"]
    ko = {k: o[k] for k in ("lmin", "lmax", "coupling")}
    df = gen.table(case)
    # verbose runs write to the standard streams
    table = {}

    def stage(name, f, args, kw=None, updates=(), seeds=False, user=None, other=None):
        """One call: alone, interrupted, with failing user functions; then again."""
        kw = kw or {}
        # (the disturbed call may be about something else)
        args2, kw2 = other or (args, {})
        kw2 = dict(kw, **kw2)
        every = [df, *[x for x in table.values()], *args, *kw.values(), *args2, *kw2.values()]
        every = [x for i, x in enumerate(every) if x is not None and not callable(x) and not any(x is y for y in every[:i])]
        before = [snap(x) for x in every]
        s0 = settings()
        first = {i: x.copy() for i, x in enumerate(every) if any(x is y for y, _ in updates)}
        final = {}                      # after the documented updates

        def reset():
            """As before the documented updates."""
            for i, x in enumerate(every):
                if i in first:
                    for c in list(x.columns):
                        if c not in first[i].columns:
                            del x[c]
                        elif not np.array_equal(x[c].values, first[i][c].values, equal_nan=True):
                            x[c] = first[i][c].values

        def after(what, done):
            """Nothing changed (documented updates: entirely or not at all)."""
            d = settings_diff(s0, settings())
            if seeds:
                d = [x for x in d if x != "NumPy's generator"]
            mon.ev("settings compared")
            mon.check(not d, "%s changed process-wide settings (%s)" % (name, what), settings=d[:8])
            for i, (x, b) in enumerate(zip(every, before)):
                now = snap(x)
                mon.ev("snapshots compared")
                if now == b:
                    continue
                bad = set(diff(now, b))
                if i in first:
                    parts = [p for y, p in updates if y is x][0]
                    if i not in final:
                        final[i] = {p: now.get(p) for p in parts}
                    bad -= {p for p in parts if now.get(p) == final[i][p]}
                    if not done and bad == set():
                        mon.ev("updates completed")
                mon.check(not bad, "%s changed its inputs (%s)" % (name, what), parts=sorted(bad)[:6])

        tr = Tracer()
        try:
            with tr:
                out = f(*args, **kw)
        except (ZeroDivisionError, np.linalg.LinAlgError, RuntimeError) as e:
            mon.note("%s: %s" % (name, type(e).__name__))
            after("failing call", True)
            return None
        after("call", True)
        mon.ev("stage " + name)
        ref = snap(out)

        def disturbed(what, g, a, k):
            nonlocal before, s0
            reset()
            before = [snap(x) for x in every]
            if not seeds:
                np.random.seed(int(r.integers(2 ** 31)))
            s0 = settings()
            try:
                g(a, k)
            except BaseException as e:
                if type(e).__name__ == "CaseTimeout":
                    raise
            after(what, False)
            before, s0 = [snap(x) for x in every], settings()
            now = f(*args, **kw)
            mon.ev("repeated calls")
            got = snap(now)
            mon.check(got == ref, "%s gives something else after %s" % (name, what), parts=diff(got, ref)[:6])
            after("call after %s" % what, True)

        lines = tr.lines
        if lines:
            # any executed line alike, then any of its executions
            L = sorted(set(lines))
            for _ in range(case["points"]):
                w = L[int(r.integers(len(L)))]
                hits = [i for i, x in enumerate(lines) if x == w]
                k = hits[int(r.integers(len(hits)))] if r.random() < .7 else hits[-1]
                exc = gen.pick(r, KINDS)
                t2 = Tracer(k, exc)
                raised = []

                def g(a, kk, t2=t2, exc=exc, raised=raised):
                    try:
                        with t2:
                            f(*a, **kk)
                    except BaseException as e:
                        raised.append(e)
                        raise
                if other and r.random() < .5:
                    disturbed("interruption of another call", g, args2, kw2)
                    mon.ev("other calls interrupted")
                else:
                    disturbed("interruption", g, args, kw)
                mon.ev("interruptions")
                mon.key(name, w)
                if t2.fired and exc in (Interruption, KeyboardInterrupt):
                    mon.check(raised and isinstance(raised[0], exc), "%s went on after it was interrupted" % name, line=list(t2.fired), got=repr(raised[:1]))
        for key, fun in (user or {}).items():
            probe = Failing(fun, 10 ** 9, ValueError)
            f(*args, **dict(kw, **{key: probe}))
            for exc in (Interruption, gen.pick(r, [KeyError, OSError, KeyboardInterrupt])):
                if not probe.n:
                    break
                bad = Failing(fun, int(r.integers(probe.n)), exc)
                raised = []

                def g(a, kk, raised=raised, bad=bad, key=key):
                    try:
                        f(*a, **dict(kk, **{key: bad}))
                    except BaseException as e:
                        raised.append(e)
                        raise
                disturbed("failure of a user function", g, *((args2, kw2) if other and r.random() < .5 else (args, kw)))
                mon.ev("user failures", bad.failed)
                mon.check(not bad.failed or raised and isinstance(raised[0], exc), "%s hid the failure of a user function" % name, failed=bad.failed, got=repr(raised[:1]))
        return out

    def refused(name, f, args, what):
        every = [x for x in args if isinstance(x, (pd.DataFrame, np.ndarray))]
        before, s0 = [snap(x) for x in every], settings()
        try:
            f(*args)
        except Exception:
            mon.ev("refused inputs")
        else:
            mon.note("accepted: " + what)
            return
        d = settings_diff(s0, settings())
        mon.ev("settings compared")
        mon.check(not d, "refusing an input changed process-wide settings (%s)" % name, settings=d[:8], case=what)
        for x, b in zip(every, before):
            mon.check(snap(x) == b, "refusing an input changed it (%s)" % name, parts=diff(snap(x), b)[:6], case=what)

    # another pipeline, of other fibers
    m2 = fm.Mat(int(r.integers(2, 7)), length=float(case["size"]) * .7, size=float(case["size"]), thickness=.5, tensile=50., theta=1.5, seed=int(r.integers(99)))
    n2 = fm.Net(m2)
    s2 = fm.Stack(m2, n2)
    g2 = fm.Mesh(s2)
    A2 = [*fm.stiffness(m2, g2), *fm.constraint(m2, g2)]
    m = stage("Mat", fm.Mat, [df], {"copy": True}, other=([m2], {}))
    stage("new Mat", fm.Mat, [], dict(n=int(r.integers(0, 6)), size=9., length=5., seed=int(r.integers(9)), psi=.1), seeds=True)
    table["mat"] = m
    n = stage("Net", fm.Net, [m], {"periodic": case["periodic"]}, other=([m2], {"periodic": not case["periodic"]}))
    table["net"] = n
    P = np.c_[np.triu_indices(len(m))]
    stage("pairs", fm.Net, [m], {"periodic": False, "pairs": P[(P[:, 0] == P[:, 1]) | (r.random(len(P)) < .7)]})
    z0 = m.z.values.copy()
    s = stage("Stack", fm.Stack, [m, n], {"threshold": case["threshold"]}, updates=[(m, {"column z"})], other=([m2, n2], {"threshold": None}))
    table["stack"] = s
    g = stage("Mesh", fm.Mesh, [s], other=([n2], {}))
    table["mesh"] = g
    for x, t in (("mat", m), ("net", n), ("stack", s), ("mesh", g)):
        stage("check", type(t).check, [t])
    S = stage("stiffness", fm.stiffness, [m, g], ko, other=([m2, g2], {"coupling": .3}))
    C = stage("constraint", fm.constraint, [m, g], updates=[(g, {"column h", "columns"})], other=([m2, g2], {}))
    kw = dict(ko, packing=o["packing"], itermax=6, verbose=False)
    h = [(g, {"column h", "columns"})]
    lin = {"solve": sp.linalg.spsolve}
    oth = gen.pick(r, [([m2, g2], {}), ([m, g], {"coupling": .37 * o["coupling"]}), ([m2, g2], {"itermax": 2})])
    res = None
    if case["seed"] % 2:
        res = stage("solve", fm.solve, [m, g], dict(kw, tol=1e-6), updates=h, user=lin, other=oth)
    else:
        res = stage("verbose solve", fm.solve, [m, g], dict(kw, verbose=True), updates=h, user=lin, other=oth)
    if case["seed"] % 3 == 0:
        stage("resampled solve", fm.solve, [m, g], dict(kw, interp_size=5), updates=h, other=oth)
    # ends of a compaction: error, singular system, number of steps, nothing to do
    how = gen.pick(r, ["error", "singular", "steps", "none"])
    if how == "error":
        end = dict(kw, errtol=-1., verbose=bool(r.random() < .5))
    elif how == "steps":
        end = dict(kw, itermax=int(r.integers(0, 3)), interp_size=gen.pick(r, [None, 3]), perm=r.permutation(S[0].shape[0] + C[0].shape[0]))
    elif how == "none":
        end = dict(kw, packing=gen.pick(r, [0., 1.]))
    else:
        count = [0, int(r.integers(0, 3))]

        def singular(A, b):
            count[0] += 1
            if count[0] > count[1]:
                count[0] = 0
                raise gen.pick(np.random.default_rng(0), [RuntimeError, np.linalg.LinAlgError])("Factor is exactly singular")
            return sp.linalg.spsolve(A, b)
        end = dict(kw, solve=singular, verbose=bool(r.random() < .5))

    def ended(*a, **k):
        if how == "singular":
            count[0] = 0
        return fm.solve(*a, **k)
    stage("solve to an end", ended, [m, g], end, updates=h)
    mon.ev("end: " + how)
    # a set without fibers
    e = fm.Mat()
    stage("empty", lambda a: [fm.Net(a), fm.Stack(a, fm.Net(a)), fm.Mesh(fm.Net(a)), *fm.stiffness(a, fm.Mesh(fm.Net(a)))], [e])
    A = [*S, *C]
    if np.isfinite(A[0].data).all():
        drawn(stage, fm, plt, A, A2, r)
    stage("vtk_fiber", fm.vtk_fiber, list(r.uniform(.5, 3., 9)), {"index": 3, "z_resolution": 3})
    stage("vtk_mat", fm.vtk_mat, [m], {"verbose": bool(r.random() < .5), "z_resolution": 3}, user={"func": None}, other=([m2], {"theta_resolution": 4}))
    d = [r.normal(size=len(g)) for _ in range(4)] if res is None else [*res[2](1).reshape(-1, 2).T, *(res[3](1) @ res[1]).reshape(-1, 2).T]
    stage("vtk_mesh", fm.vtk_mesh, [m, g, *[np.array(x, float) for x in d]], {"verbose": bool(r.random() < .5), "z_resolution": 3}, other=([m2, g2], {}))
    y = r.normal(size=(6, 3))
    I = stage("Interpolate", fm.Interpolate, [y], {"size": gen.pick(r, [None, 4, 9]), "kind": gen.pick(r, ["linear", "previous"])})
    stage("evaluate", lambda t: [I(t), I(.3), I()], [r.random(4)])
    # inputs that are refused
    bad = dup(m)
    bad.iloc[int(r.integers(len(m))), int(r.integers(4))] = np.nan
    refused("Net", fm.Net, [bad], "not a number")
    bad = dup(m)
    bad.index = bad.index[::-1]
    refused("Net", fm.Net, [bad], "labels not sorted")
    bad = dup(n)
    bad.attrs["n"] = 0
    refused("Stack", fm.Stack, [m, bad], "another number of fibers")
    refused("Mesh", fm.Mesh, [bad], "another number of fibers")
    bad = pd.DataFrame({k: g[k].values for k in g.columns if k != "z"})
    bad.attrs = dict(g.attrs)
    refused("constraint", fm.constraint, [m, bad], "column missing")
    refused("stiffness", fm.stiffness, [m, bad], "column missing")
    refused("solve", fm.solve, [m, bad], "column missing")
    refused("vtk_mesh", fm.vtk_mesh, [m, bad], "column missing")
    refused("vtk_mat", fm.vtk_mat, [n], "a network")
    mon.sample = {"families": case.get("fam"), "stages": int(sum(v for k, v in mon.events.items() if k.startswith("stage "))), "interruptions": mon.events["interruptions"]}


def drawn(stage, fm, plt, A, A2, r):
    def f(*a, **k):
        try:
            return fm.plot_system(*a, **k) is None
        finally:
            plt.close("all")
    k = {"perm": r.permutation(A[0].shape[0] + A[5].shape[0])} if r.random() < .5 else {}
    stage("plot_system", f, A, k, other=(A2, {"perm": None}))


def imported(case, mon):
    """Importing the library changes nothing of what its dependencies have set."""
    code = ("import sys; sys.path.insert(0, %r); sys.path.insert(0, %r)\n"
            "from fmon.checks import c38\nimport numpy, scipy.sparse.linalg, scipy.optimize, scipy.interpolate, pandas, matplotlib.pyplot, pyvista, tqdm, ipywidgets, IPython.display, json\n"
            "import io, contextlib\nout = io.StringIO()\n"
            "c38.settings(); a = c38.settings()\nwith contextlib.redirect_stdout(out), contextlib.redirect_stderr(out): import fibermat\n"
            "b = c38.settings()\nwith contextlib.redirect_stdout(out), contextlib.redirect_stderr(out): exec('from fibermat import *')\nc = c38.settings()\n"
            "open(sys.argv[1], 'w').write(json.dumps([c38.settings_diff(a, b), c38.settings_diff(b, c), out.getvalue()]))" % (env.VERIF, os.path.join(env.REPO, "src")))
    path = os.path.join(env.scratch(), "import%d.json" % os.getpid())
    try:
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200, cwd=env.scratch(), env=dict(os.environ))
        if not mon.check(p.returncode == 0 and os.path.exists(path), "the library cannot be imported", error=p.stderr[-500:]):
            return
        with open(path) as f:
            a, b, out = json.load(f)
    finally:
        if os.path.exists(path):
            os.unlink(path)
    mon.ev("imports")
    mon.check(not a and not b, "importing the library changed process-wide settings", settings=(a + b)[:8])
    mon.check(not out, "importing the library prints", out=out[-300:])
