"""C18: mechanical equilibrium and global force balance at every step."""
import numpy as np
from .. import gen
from ..solvemon import Run

ID = "C18"
RULE = ("solver runs as in C17 (full histories); at every stored step and random times the residual of each free degree of freedom, the "
        "floor/wall balance of each connected set of fibers, the moments, and the reported error are recomputed; non-trivial = new history "
        "with non-zero forces")
NEED = {"runs": 150, "balanced degrees of freedom": 100000, "loaded sets": 1000, "reported errors": 1000, "finite moduli": 30, "infinite moduli": 30,
        "times with force": 500, "residuals compared": 15, "inaccurate steps refused": 4}
ASSUMPTIONS = ["as C17"]


def cases(rng, tier):
    k = 700 if tier == "quick" else 6000
    for i in range(k):
        s = gen.solve_spec(rng, 1, 26 if i % 10 else 60)
        if i % 8 == 7:
            s["errtol"] = gen.pick(rng, [1e-9, 1e-3])
        if i % 9 == 8:
            s["stiff"] = gen.pick(rng, [1e-3, 1e3, 1e9])
        if i % 5 == 4:
            s["crude"] = [gen.pick(rng, [1e-9, 1e-7, 1e-5, 1e-3, 1e-2]), gen.pick(rng, [1e-6, 1e-6, 1e-4, 1e-2])]
        yield s


def run(case, mon):
    kw = {}
    if "errtol" in case:
        kw["errtol"] = case["errtol"]
    if "stiff" in case:
        kw["errtol"] = 1e-6 * max(1., case["stiff"])
        case = dict(case)
        import fmon.gen as g
        orig = g.table

        def table(c, k=case["stiff"]):
            t = orig(c)
            t["G"], t["E"] = t.G * k, t.E * k
            return t
        g.table = table
        try:
            o = Run(case, **kw)
        finally:
            g.table = orig
    else:
        o = Run(case, **kw)
    errtol = kw.get("errtol", 1e-6)
    r = gen.rng_of(case, 18)
    mon.ev("runs")
    t = np.r_[o.u.t, r.random(5)]
    K, C = o.K.toarray(), o.C.toarray()
    free = np.isfinite(K).all(1)
    mon.check(free[::2].all(), "undefined stiffness of a vertical displacement")
    lab_k, lab = o.components()
    sc = np.abs(K[free][:, free]).max() if free.any() else 0
    for x in t:
        u, f, F = o.u(x), o.fo(x), o.F(x)
        if not mon.check(np.isfinite(u).all() and np.isfinite(f).all(), "undefined displacements or forces", at=x):
            return
        mon.check(not np.any(F), "an external load acts", at=x)
        mon.check(not np.any(u[~free]), "a rigid degree of freedom moves", at=x)
        res = K[np.ix_(free, free)] @ u[free] + C.T[free] @ f
        mag = np.abs(K[np.ix_(free, free)]) @ np.abs(u[free]) + np.abs(C.T[free]) @ np.abs(f)
        # rounding of a sum of large terms, plus the tolerated error of each step
        tol = 1e-7 * max(1e-300, np.abs(f).max(), 1e-3 * mag.max()) + errtol * (o.top - float(o.Z(x)))
        mon.check((np.abs(res) <= tol).all(), "degree of freedom out of balance", at=x, worst=np.abs(res).max(), tolerance=tol)
        mon.ev("balanced degrees of freedom", free.sum())
        fl, wa = f[::3], f[2::3]
        for c in range(lab_k):
            a, b = fl[lab == c].sum(), wa[lab == c].sum()
            mon.check(abs(a - b) <= tol * np.sqrt(o.N) * 4, "floor reaction differs from wall force", at=x, floor=a, wall=b)
            mon.ev("loaded sets", abs(b) > 1e-9 * max(1e-300, np.abs(f).max()))
        mon.ev("times with force", np.abs(f).max() > 0)
    if "crude" in case:
        crude(case, mon)
    e = o.err(o.err.t)
    mon.check((e >= 0).all() and (e <= errtol).all(), "reported error beyond the tolerance", worst=e.max())
    mon.ev("reported errors", len(e))
    mon.ev("finite moduli", np.isfinite(o.m.E).any()); mon.ev("infinite moduli", np.isinf(o.m.E).any())
    if o.T > 1 and np.abs(o.fo(1)).max() > 0:
        mon.key(np.round(o.fo(1) / np.abs(o.fo(1)).max(), 4).tobytes())
        mon.sample = {"steps": o.T - 1, "wall force": float(o.fo(1)[2::3].sum()), "floor": float(o.fo(1)[::3].sum()), "max residual": float(np.abs(res).max())}


def crude(case, mon):
    """The reported error is the residual of each linear solve, whatever the linear solver: a perturbed one is given."""
    import scipy.sparse.linalg as spl
    eps, errtol = case["crude"]
    r = gen.rng_of(case, 181)
    res, size = [], []

    def solver(A, b):
        x = spl.spsolve(A, b)
        x = x * (1 + eps * r.normal(size=len(x)))
        res.append(float(np.linalg.norm(A @ x - b)))
        size.append(float(np.linalg.norm(abs(A) @ np.abs(x)) + np.linalg.norm(b)))
        return x
    m, net, st, mesh = gen.pipeline(case)
    out = gen.run_solve(case, m, mesh, solve=solver, errtol=errtol, itermax=min(40, case["opts"]["itermax"]))
    err = out[9]
    e = err()
    mon.ev("runs with an inexact solver")
    k = len(e) - 1
    mon.check(e[0] == 0, "error before the first step", got=e[0])
    if not mon.check(len(res) in (k, k + 1) and len(out[6].t) == k + 1, "number of reported errors", solves=len(res), reported=k):
        return
    for i in range(k):
        rnd = 1e-12 * size[i]
        mon.ev("residuals compared")
        mon.check(abs(e[i + 1] - res[i]) <= 1e-6 * res[i] + rnd, "the reported error is not the residual of the step", step=i, reported=e[i + 1], residual=res[i])
        mon.check(res[i] <= errtol * (1 + 1e-6) + rnd, "a step beyond the error tolerance was kept", step=i, residual=res[i], tolerance=errtol)
    mon.ev("inaccurate steps refused", len(res) == k + 1 and res[-1] > errtol)
