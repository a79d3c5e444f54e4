"""C42: targets, limits and accuracy settings only decide where a compaction stops."""
import warnings
import numpy as np
import scipy.sparse.linalg as spl
from .. import gen
from ..solvemon import Run, cond1
from .c21 import path, at

ID = "C42"
RULE = ("groups of solver runs on one set: a long one and runs with lower targets (between steps, on computed steps), smaller iteration limits, larger error tolerances, other "
        "contact tolerances, resampled at several sizes, and with linear solvers that lose part of a solution (NaN, infinities); each is compared with the beginning of the long run (displacements, forces, bounds, wall, active sets, errors per step) "
        "and must end where its own criteria say; non-trivial = new long run with at least 3 steps")
NEED = {"groups": 90, "shorter runs": 700, "common steps": 2000, "kind:target": 150, "kind:exact target": 80, "kind:limit": 150, "kind:error tolerance": 80, "kind:contact tolerance": 40,
        "kind:resampled": 60, "kind:undefined solution": 60}
ASSUMPTIONS = ["as C17", "contact tolerances compared up to the first step whose system has a condition number above 1e9"]


def cases(rng, tier):
    k = 180 if tier == "quick" else 3500
    for i in range(k):
        s = gen.solve_spec(rng, 2, 26 if i % 10 else 60)
        s["opts"]["packing"] = gen.pick(rng, [2., 4., 6.]) + .0917 * float(rng.random())
        yield s


def hist(o):
    t = o.u.t
    return [np.array([a(x) for x in t]) for a in (o.u, o.fo, o.F, o.H, o.Z, o.rl, o.mask, o.err)]


NAMES = ["displacements", "forces", "loads", "bounds", "wall", "compaction", "active set", "error"]


def run(case, mon):
    r = gen.rng_of(case, 42)
    o = Run(case)
    mon.ev("groups")
    h = hist(o)
    T = o.T
    rl = h[5]
    if T < 2:
        return
    K, C = o.K.tocsr(), o.C.tocsr()

    def compare(v, what, want):
        mon.ev("shorter runs"); mon.ev("kind:" + what)
        for a, b, k in ((o.K, v.K, "K"), (o.C, v.C, "C")):
            mon.check((a != b).nnz == 0, "the %s changes %s" % (what, k))
        g = hist(v)
        m = v.T
        if want is not None:
            mon.check(m == want, "a run with another %s stops elsewhere" % what, steps=m - 1, expected=want - 1, target=v_opts.get("packing"), limit=v_opts.get("itermax"), compaction=rl[:8])
        m = min(m, T)
        for k, a, b in zip(NAMES, h, g):
            e = 1e-9 * max(1e-300, np.abs(np.where(np.isfinite(a[:m]), a[:m], 0)).max(initial=0.)) if a.dtype != bool else 0
            with np.errstate(invalid="ignore"):
                d = np.where((a[:m] == b[:m]), 0., np.abs(a[:m] * 1. - b[:m] * 1.))
            mon.check(a.shape[1:] == b.shape[1:] and not (d > e).any() and not np.isnan(d).any(), "the %s changes the %s of the steps before the stop" % (what, k), worst=d.max(initial=0.))
        mon.ev("common steps", m - 1)
        return g

    def steps(target, limit):
        """Number of stored states for a target and a limit, from the long run."""
        n = 1
        while n < T and n <= limit and rl[n - 1] < target:
            n += 1
        return n
    # lower targets
    for _ in range(3):
        p = float(r.uniform(1., rl[-1]))
        v_opts = {"packing": p}
        compare(Run(case, **v_opts), "target", steps(p, np.inf) if np.abs(rl - p).min() > 1e-9 else None)
    for k in {1, int(r.integers(1, T))}:
        # reached exactly
        v_opts = {"packing": float(rl[k])}
        compare(Run(case, **v_opts), "exact target", steps(rl[k], np.inf))
    # smaller limits
    for k in sorted({0, 1, T - 2, int(r.integers(0, T)), int(r.integers(0, T))} - {-1}):
        v_opts = {"itermax": k}
        compare(Run(case, **v_opts), "limit", steps(case["opts"]["packing"], k))
    k, p = int(r.integers(0, T)), float(r.uniform(1., rl[-1]))
    v_opts = {"itermax": k, "packing": p}
    compare(Run(case, **v_opts), "limit", steps(p, k) if np.abs(rl - p).min() > 1e-9 else None)
    # accuracy of the linear solver
    for e in (1e-3, np.inf):
        v_opts = {"errtol": e}
        v = Run(case, **v_opts)
        compare(v, "error tolerance", None)
        mon.check(v.T >= T, "a larger error tolerance stops earlier", steps=[v.T - 1, T - 1], errtol=e)
    if T > 2:
        e = float(h[7][1:].max())
        if e > 0:
            # refused from the first step beyond it
            q = e * .5
            n = 1 + int(np.argmax(h[7][1:] > q))
            v_opts = {"errtol": q}
            mon.check(not (h[7][1:n] > q).any(), "oracle")
            compare(Run(case, **v_opts), "error tolerance", n)
    # undefined solutions satisfy no tolerance
    at_, part = int(r.integers(0, T - 1)), gen.pick(r, ["one", "some", "all"])
    n = [0]

    def lost(A, b):
        x = spl.spsolve(A, b)
        n[0] += 1
        if n[0] > at_ and len(x):
            x[{"one": [int(r.integers(len(x)))], "some": r.random(len(x)) < .1, "all": slice(None)}[part]] = gen.pick(r, [np.nan, np.nan, np.inf])
            bad[0] = bad[0] or not np.isfinite(x).all()
        return x
    bad = [False]
    v_opts = {"errtol": gen.pick(r, [1e-6, 1e-6, 1.])}
    v = Run(case, record=True, inner=lost, itermax=at_ + 1, **v_opts)
    if bad[0]:
        g = compare(v, "undefined solution", at_ + 1)
        mon.check(all(np.isfinite(g[i]).all() for i in (0, 4, 5, 7)), "an undefined solution is stored")
    # resampled
    size = int(r.integers(2, 60))
    p = float(r.uniform(1., rl[-1]))
    v = Run(case, interp_size=size, packing=p)
    w = Run(case, packing=p)
    mon.ev("shorter runs"); mon.ev("kind:resampled")
    if np.abs(rl - p).min() > 1e-9:
        mon.check(v.T == w.T == steps(p, np.inf), "a resampled run stops elsewhere", steps=[v.T - 1, w.T - 1], expected=steps(p, np.inf) - 1)
    mon.near(np.array(v.rl()), rl[:v.T], 1e-9 * rl.max(), "a resampled run has another compaction")
    for a, b, k in zip((v.u, v.fo, v.H, v.Z), (w.u, w.fo, w.H, w.Z), ("displacements", "forces", "bounds", "wall")):
        for x in (0., 1.):
            va, vb = np.asarray(a(x)), np.asarray(b(x))
            with np.errstate(invalid="ignore"):
                mon.check(np.array_equal(va == vb, va == va) or np.allclose(va, vb, rtol=1e-9, atol=1e-12 * np.abs(vb[np.isfinite(vb)]).max(initial=1.)), "a resampled run has other %s at its ends" % k, at=x)
    # contact tolerance
    o2 = Run(case, record=True, tol=float(gen.pick(r, [1e-8, 1e-5, 1e-7])) * min(1., o.hmax))
    good = 1
    for c in o2.calls[:o2.T - 1]:
        if cond1(c["A"]) > 1e9:
            break
        good += 1
    if good > 1:
        mon.ev("kind:contact tolerance")
        p, q = path(o), path(o2)
        end = max(q[0][min(good, o2.T) - 1], p[0][-1])
        z = np.unique(np.r_[p[0], q[0]])
        z = z[z >= end]
        (a, _), (b, _) = at(p, z), at(q, z)
        tol = (20 + 2 * T) * max(o.tol, o2.tol) + 1e-6 * o.top
        mon.near(b[:, ::2], a[:, ::2], tol, "the contact tolerance changes the displacements", tolerances=[o.tol, o2.tol], steps=[T - 1, o2.T - 1])
    if T > 3:
        mon.key(np.round(rl / rl[-1], 6).tobytes())
        mon.sample = {"steps": T - 1, "compaction": [float(x) for x in rl[:6]]}
