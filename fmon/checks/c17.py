"""C17: no penetration, no floor or wall crossing, at any pseudo-time."""
import numpy as np
from .. import gen
from ..solvemon import Run

ID = "C17"
RULE = ("stacked meshes (13 planar families, 1-26 fibers, unequal thicknesses, moduli finite/infinite/mixed, periodic or not, thresholds) "
        "compacted with random targets, limits, coupling, length bounds and resampling; clearances recomputed from the tables at all stored "
        "and random intermediate times; non-trivial = new history with at least 3 steps and a contact closing on the way")
NEED = {"runs": 150, "time points": 3000, "clearances": 50000, "contacts closed on the way": 300, "wall contacts closed on the way": 300,
        "resampled runs": 20, "finite moduli": 30, "infinite moduli": 30}
ASSUMPTIONS = ["meshes stacked from in-plane fibers (admissible at rest)", "coupling < 1 when the tensile modulus is finite",
               "positive element lengths (lmin given)"]


def cases(rng, tier):
    k = 1600 if tier == "quick" else 6000
    for i in range(k):
        s = gen.solve_spec(rng, 1, 26 if i % 10 else 60)
        s["interp_size"] = gen.pick(rng, [None, None, None, 2, 7, 100])
        yield s


def run(case, mon):
    o = Run(case, interp_size=case["interp_size"])
    r = gen.rng_of(case, 17)
    mon.ev("runs")
    t = np.unique(np.r_[o.u.t, o.rl.t, r.random(20), 0., 1.])
    t = t[(t >= 0) & (t <= 1)]
    U = np.array([o.u(x) for x in t])
    Z = np.array([float(o.Z(x)) for x in t])
    H = np.array([o.H(x) for x in t])
    mon.check(U.shape == (len(t), 2 * o.N), "shape of displacements", got=U.shape)
    mon.check(np.isfinite(U).all() and np.isfinite(Z).all(), "undefined displacements or wall position")
    fl, gap, wall = o.clearances(U[:, ::2], Z)
    tol = o.tol + 1e-9 * o.hmax
    for name, c in (("floor", fl), ("contact", gap), ("wall", wall)):
        w = c.min() if c.size else 0
        mon.check(w >= -tol, "%s penetration" % name, clearance=w, at=t[np.argwhere(c == w)[0][0]] if c.size else None)
        mon.ev("clearances", np.isfinite(c).sum())
    # every node, also those that carry no floor or wall row
    z = o.z0 + U[:, ::2]
    mon.check((z - .5 * o.h >= -tol).all(), "a node crosses the floor", worst=(z - .5 * o.h).min())
    mon.check((Z[:, None] - z - .5 * o.h >= -tol).all(), "a node crosses the wall", worst=(Z[:, None] - z - .5 * o.h).min())
    # returned bounds are consistent with displacement and geometry
    e = 1e-9 * (1 + o.top)
    mon.near(H - U @ o.C.T.toarray(), np.stack([fl, gap, wall], axis=2).reshape(len(t), -1), e, "returned bounds inconsistent with the geometry")
    mon.check(abs(Z[0] - o.top) <= e, "wall does not start on the highest fiber", got=Z[0], expected=o.top)
    mon.ev("time points", len(t))
    g0, g1 = gap[0], gap[-1]
    mon.ev("contacts closed on the way", ((g0 > 1e-3 * o.hmax) & (g1 < 2 * o.tol)).sum())
    mon.ev("wall contacts closed on the way", ((wall[0] > 1e-3 * o.hmax) & (wall[-1] < 2 * o.tol)).sum())
    mon.ev("resampled runs", case["interp_size"] is not None)
    mon.ev("finite moduli", np.isfinite(o.m.E).any()); mon.ev("infinite moduli", np.isinf(o.m.E).any())
    if o.T > 3:
        mon.key(np.round(Z / o.hmax, 5).tobytes())
        mon.sample = {"fibers": len(o.m), "steps": o.T - 1, "from": Z[0], "to": Z[-1]}
