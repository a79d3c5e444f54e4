"""C34: verbosity only decides what is shown, and what is shown is true."""
import contextlib
import io
import re
import warnings
import numpy as np
import scipy.sparse.linalg as spl
from .. import gen
from ..solvemon import Run

ID = "C34"
RULE = ("solver runs and exports repeated silent and verbose with both output streams and the warnings recorded; solver faults (a linear solver that "
        "fails or loses accuracy at a planned step) injected into half of the runs; final counter of each progress bar compared with the steps and "
        "fibers, results compared bit by bit; non-trivial = new (steps, fault) history")
NEED = {"runs": 60, "silent runs": 60, "counted steps": 80, "faults": 12, "announced stops": 8, "exports": 60, "counted fibers": 300, "silent stages": 60,
        "stops without fault": 8}
ASSUMPTIONS = ["progress is shown by a counter 'done/total' on one of the standard streams", "a fault announced by a warning of class UserWarning"]


def cases(rng, tier):
    k = 350 if tier == "quick" else 2000
    for i in range(k):
        s = gen.solve_spec(rng, 1, 16)
        s["fault"] = gen.pick(rng, [None, None, "singular", "failed", "inaccurate"])
        s["at"] = int(gen.pick(rng, [0, 0, 1, 1, 2, 3, 5]))
        s["opts"]["itermax"] = int(gen.pick(rng, [1, 3, 8, 40, 200]))
        yield s


@contextlib.contextmanager
def recorded():
    o, e = io.StringIO(), io.StringIO()
    rec = {"out": "", "err": "", "warnings": []}
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        warnings.simplefilter("always")
        yield rec
    rec["out"], rec["err"] = o.getvalue(), e.getvalue()
    rec["warnings"] = [str(x.message) for x in w if x.category is UserWarning]


def counter(rec):
    m = re.findall(r"(\d+)/(\d+)", rec["out"] + rec["err"])
    return (int(m[-1][0]), int(m[-1][1])) if m else None


def quiet(rec, mon, what):
    mon.check(not rec["out"].strip() and not rec["err"].strip(), "%s prints although not verbose" % what, out=rec["out"][:200], err=rec["err"][:200])
    mon.check(not rec["warnings"], "%s warns although not verbose" % what, warnings=rec["warnings"][:2])


def faulty(case):
    n = [0]

    def linear(A, b):
        n[0] += 1
        if n[0] - 1 == case["at"]:
            if case["fault"] == "singular":
                raise np.linalg.LinAlgError("Singular matrix")
            if case["fault"] == "failed":
                raise RuntimeError("Factor is exactly singular")
            x = spl.spsolve(A, b)
            # (an error on every unknown, contact forces included)
            return x + 1e3 * (1 + np.abs(x)) * (1 + np.arange(len(x)) % 3)
        return spl.spsolve(A, b)
    linear.calls = n
    return linear


def run(case, mon):
    from fibermat import vtk_mat, vtk_mesh
    with recorded() as rec:
        m, net, st, mesh = gen.pipeline(case)
    quiet(rec, mon, "the pipeline")
    mon.ev("silent stages")
    fault = case["fault"]
    res = []
    for verbose in (False, True):
        kw = {"solve": faulty(case)} if fault else {}
        with recorded() as rec:
            out = gen.run_solve(case, m, mesh.copy(), verbose=verbose, **kw)
        res.append((rec, out, kw["solve"].calls[0] if fault else None))
    (r0, o0, n0), (r1, o1, n1) = res
    mon.ev("runs")
    quiet(r0, mon, "the solver")
    mon.ev("silent runs")
    T = len(o0[7].t)
    same = len(o1[7].t) == T and all(np.array_equal(a(s), b(s), equal_nan=True) for a, b in zip(o0[2:], o1[2:]) for s in (0., *o0[7].t, .37))
    mon.check(same and n0 == n1, "results depend on the verbosity", steps=[T - 1, len(o1[7].t) - 1])
    c = counter(r1)
    if mon.check(c is not None, "no progress is shown although verbose", err=r1["err"][:200]):
        mon.check(c == (T - 1, case["opts"]["itermax"]), "the progress bar does not count the steps", shown=c, expected=(T - 1, case["opts"]["itermax"]))
        mon.ev("counted steps", T - 1)
    p = re.findall(r"Packing: *([0-9.e+-]+)", r1["err"] + r1["out"])
    if p:
        mon.near(float(p[-1].rstrip(".:") or "nan"), o1[7](1), .06 * o1[7](1), "the progress bar shows another packing", shown=p[-1])
    hit = fault and n0 > case["at"]
    mon.ev("faults", bool(hit))
    w = [x for x in r1["warnings"] if "topp" in x or "rror" in x or "ingular" in x]
    if hit:
        mon.check(T - 1 == case["at"], "steps computed before a fault are lost, or the fault is ignored", steps=T - 1, at=case["at"], fault=fault)
        if fault != "inaccurate" or w:
            mon.check(len(w) == 1, "a fault is not announced once although verbose", warnings=r1["warnings"][:3], fault=fault)
        mon.ev("announced stops", len(w))
    elif T - 1 >= case["opts"]["itermax"] or o0[7](1) >= case["opts"]["packing"]:
        # (a documented end: nothing to announce)
        mon.check(not w, "a warning although nothing failed", warnings=w[:2])
        mon.ev("stops without fault")
    # exports
    u, f, C = o0[2](1), o0[3](1), o0[1]
    for fun, args in ((vtk_mat, (m,)), (vtk_mesh, (m, mesh, *u.reshape(-1, 2).T, *(f @ C).reshape(-1, 2).T))):
        with recorded() as q0:
            a = fun(*args, verbose=False)
        with recorded() as q1:
            b = fun(*args, verbose=True)
        quiet(q0, mon, fun.__name__)
        c = counter(q1)
        mon.check(c == (len(m), len(m)), "the progress bar of %s does not count the fibers" % fun.__name__, shown=c, expected=len(m))
        mon.ev("counted fibers", len(m))
        mon.check(a.n_points == b.n_points and np.array_equal(a.points, b.points) and a.array_names == b.array_names
                  and all(np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind == "f") for k in a.array_names), "%s depends on the verbosity" % fun.__name__)
        mon.ev("exports")
    mon.key(T, fault, case["at"], np.round(o0[6].y if hasattr(o0[6], "y") else o0[6](1), 6).tobytes())
    mon.sample = {"steps": T - 1, "fault": fault, "shown": r1["err"][-80:]}
