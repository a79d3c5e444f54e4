"""C30: changing the unit of length or of stress changes every result by its dimension."""
import numpy as np
import scipy.sparse as sp
from .. import gen
from ..solvemon import Run, cond1
from .c21 import path, at, cond, stiff

ID = "C30"
RULE = ("whole pipelines (all in-plane families, periodic or not, thresholds, moduli, element bounds) run in two unit systems: lengths times "
        "2^-12 .. 2^14 or 1e-3 .. 1e4 and / or moduli times 1e-3 .. 1e4, tolerances converted as well; generation, network, stack, mesh, matrices and "
        "the compaction path compared by dimension; non-trivial = new pair of runs with at least 2 steps")
NEED = {"pairs of runs": 80, "natural stiffness": 60, "length factors": 40, "stress factors": 30, "connections": 2000, "matrix entries": 5000, "generated": 80, "compared paths": 40,
        "compared positions": 400}
ASSUMPTIONS = ["fibers thicker than 1e-5 mm (stacking by a linear program with an absolute feasibility tolerance of 1e-7)",
               "systems with condition numbers below 1e11", "exact ties (fibers touching at their very ends, thresholds equal to a distance) only with powers of two"]


def cases(rng, tier):
    k = 900 if tier == "quick" else 3000
    for i in range(k):
        s = gen.solve_spec(rng, 2, 22 if i % 10 else 60)
        tie = s["fam"] in ("lattice", "concurrent", "edge", "bundles", "dense") or s.get("twins")
        two = tie or rng.random() < .4
        s["a"] = 2. ** int(rng.integers(-12, 15)) if two else gen.pick(rng, [1e-3, .1, 10., 1e3, 25.4, 1e4, float(10 ** rng.uniform(-3, 4))])
        s["c"] = gen.pick(rng, [1e3, 1e-3, 1e6, 1e-6, 2. ** 10, .3, 1e-9, 1e9, float(10 ** rng.uniform(-9, 9))])
        if i % 3 == 0:
            s["c"] = 1.
        if i % 3 == 1:
            s["a"] = 1.
        if s["threshold"] is not None and 0 < s["threshold"] < np.inf:
            s["threshold"] *= 1.0123
        s["opts"]["packing"] = gen.pick(rng, [1.2, 1.5, 2., 3.]) + .0917 * float(rng.random())
        yield s


class Scaled(Run):
    """The same case in other units."""

    def __init__(self, case, a, c, **kw):
        o = dict(case["opts"])
        for k in ("lmin", "lmax"):
            if o[k] is not None:
                o[k] *= a
        d = dict(case, scale=a, opts=o, threshold=None if case["threshold"] is None else case["threshold"] * a)
        self.c = c
        table = gen.table

        def other(x):
            df = table(x)
            if x is d:
                df["G"] *= c
                df["E"] *= c
            return df
        gen.table = other
        try:
            super().__init__(d, record=True, tol=1e-6 * a, errtol=np.inf, **kw)
        finally:
            gen.table = table


def run(case, mon):
    a, c = case["a"], case["c"]
    r = gen.rng_of(case, 30)
    mon.ev("length factors", a != 1)
    mon.ev("stress factors", c != 1)
    generated(case, mon, r, a, c)
    o, v = Scaled(case, 1., 1.), Scaled(case, a, c)
    mon.ev("pairs of runs")
    X = case["size"]
    e = 1e-9 * X
    # network and stack
    for p, q, name in ((o.net, v.net, "network"), (o.st, v.st, "stack")):
        if not mon.check(len(p) == len(q) and np.array_equal(p[["A", "B"]].values, q[["A", "B"]].values), "pairs of the %s depend on the unit of length" % name,
                         factor=a, got=len(q), expected=len(p)):
            return
        for k in ("sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"):
            mon.near(q[k].values / a, p[k].values, e, "%s of the %s does not scale with lengths" % (k, name), factor=a)
        mon.ev("connections", len(p))
    mon.near(v.m.z.values / a, o.m.z.values, e, "stacked heights do not scale with lengths", factor=a)
    # mesh
    if not mon.check(np.array_equal(o.mesh[["fiber", "beam", "constraint"]].values, v.mesh[["fiber", "beam", "constraint"]].values),
                     "the mesh depends on the unit of length", factor=a):
        return
    mon.near(v.mesh[[*"sxyzh"]].values / a, o.mesh[[*"sxyzh"]].values, e, "nodes do not scale with lengths", factor=a)
    # matrices: F/L on displacements, F on the coupling, F.L on rotations
    if not mon.check(o.K.shape == v.K.shape, "size of the stiffness matrix depends on the units"):
        return
    with np.errstate(invalid="ignore"):
        K, L = sp.csr_matrix(o.K), sp.csr_matrix(v.K)
        row, col = np.concatenate([np.array(x.nonzero()) for x in (K, L)], axis=1)
        row, col = np.unique(np.c_[row, col], axis=0).T
        K, L = [np.asarray(x[row, col]).ravel() if len(row) else np.zeros(0) for x in (K, L)]
    power = 1 + row % 2 + col % 2
    exp = K * c * a ** power.astype(float)
    # (rotation terms are differences of two terms)
    big = np.where(np.isfinite(exp), np.abs(exp), 0)
    d = np.zeros(o.K.shape[0])
    np.maximum.at(d, row, np.where(row == col, big, 0))
    # (infinite rotational stiffness: coupling terms are at most those of an element as long as the fiber)
    long = a * max(o.m.l.max(), case["opts"]["lmax"] or 0)
    d[1::2] = np.maximum(d[1::2], np.where(d[1::2] > 0, 0, d[::2] * long ** 2))
    tol = 1e-8 * np.sqrt(d[row] * d[col]) + 1e-8 * big
    mon.near(np.where(np.isnan(L), np.inf, L), np.where(np.isnan(exp), np.inf, exp), tol, "stiffness does not scale with its dimension", length=a, stress=c)
    mon.ev("matrix entries", len(row))
    natural(mon, o, v, a, c)
    A, B = o.C.tocoo(), v.C.tocoo()
    mon.check(np.array_equal(A.row, B.row) and np.array_equal(A.col, B.col) and np.array_equal(A.data, B.data), "the constraint matrix depends on the units")
    H, I = o.H(0), v.H(0)
    mon.near(I / a, H, e, "distances do not scale with lengths", factor=a)
    # compaction
    cn = [cond1(x["A"]) for R in (o, v) for x in R.calls[:R.T - 1]]
    k = max(cn, default=1.)
    if not k < 1e11:
        mon.note("ill-conditioned run")
        return
    rel = min(1e-4, 1e-7 + 1e-14 * k)
    p, q = path(o), path(v)
    q = (q[0] / a, q[1] / np.tile([a, 1.], o.N), q[2] / (c * a * a))
    if abs(p[0][-1] - q[0][-1]) > rel * o.top + 4 * o.tol:
        early = o if p[0][-1] > q[0][-1] else v
        if abs(early.rl(1) - case["opts"]["packing"]) < 1e-6:
            mon.note("target reached within rounding")
        elif early.calls and cond(early) >= 1e9:
            mon.note("singular system at the end")
        elif early.T - 1 >= case["opts"]["itermax"]:
            mon.note("number of steps limited")
        else:
            mon.violate("the run ends elsewhere in other units", base=p[0][-1], other=q[0][-1], length=a, stress=c, steps=[o.T - 1, v.T - 1])
    end = max(p[0][-1], q[0][-1])
    z = np.unique(np.r_[p[0], q[0]])
    z = z[z >= end]
    (ua, wa), (ub, wb) = at(p, z), at(q, z)
    mon.near(ub[:, ::2], ua[:, ::2], rel * o.top + 4 * o.tol, "displacements do not scale with lengths", length=a, stress=c)
    sc = max(np.abs(wa).max(), 1e-300)
    kk = np.abs(o.K.data[np.isfinite(o.K.data)])
    noise = 1e-13 * (kk.max() if len(kk) else 0.) * o.top
    mon.near(wb, wa, 10 * rel * sc + 8 * o.tol * stiff(p, q) + noise, "wall force does not scale with stress x area", length=a, stress=c)
    if o.T == v.T:
        mon.near(v.rl(o.rl.t), o.rl(o.rl.t), 1e-6 + 10 * rel, "compaction depends on the units", length=a, stress=c)
        mon.ev("same number of steps")
    mon.ev("compared paths")
    mon.ev("compared positions", len(z))
    if o.T > 2:
        mon.key(a, c, np.round(p[0] / o.hmax, 5).tobytes())
        mon.sample = {"fibers": len(o.m), "length factor": a, "stress factor": c, "steps": [o.T - 1, v.T - 1], "condition": k}


def natural(mon, o, v, a, c):
    """Stiffness without any bound of the lengths."""
    from fibermat import stiffness
    s, f = o.mesh.s.values, o.f
    l = np.diff(s)[np.diff(f) == 0]
    if not len(l) or l.min() < 1e-6 * l.max() or not l.max() > l.min() * (1 + 1e-9):
        return
    K, L = [stiffness(x.m, x.mesh)[0].tocsr()[::2, ::2].toarray() for x in (o, v)]
    if np.isfinite(K).all():
        tol = 1e-7 * np.sqrt(np.outer(K.diagonal(), K.diagonal()))
        mon.near(L / (a * c), K, tol, "natural stiffness does not scale with its dimension", length=a, stress=c)
        mon.ev("natural stiffness")


def generated(case, mon, r, a, c):
    from fibermat import Mat
    p = dict(n=int(r.integers(0, 40)), length=case["length"], width=.1 * case["length"], thickness=.03 * case["length"], size=case["size"],
             theta=float(r.uniform(0, np.pi)), psi=float(r.uniform(0, 1.)), shear=2., tensile=gen.pick(r, [np.inf, 700.]), seed=int(r.integers(100)))
    q = {k: x * (a if k in ("length", "width", "thickness", "size") else c if k in ("shear", "tensile") else 1) for k, x in p.items()}
    A, B = Mat(**p), Mat(**q)
    mon.ev("generated")
    if mon.check(len(A) == len(B) and B.attrs["size"] == q["size"], "generated set depends on the units"):
        mon.near(B[[*"lbhxyz"]].values / a, A[[*"lbhxyz"]].values, 1e-12 * p["size"], "generated lengths do not scale", factor=a)
        mon.near(B[[*"uvw"]], A[[*"uvw"]].values, 1e-12, "generated orientations depend on the units", factor=a)
        mon.near(B[[*"GE"]].values / c, A[[*"GE"]].values, 1e-9, "generated moduli do not scale", factor=c)
