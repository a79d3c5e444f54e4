"""C23: resampled and full histories."""
import numpy as np
from .. import gen
from ..solvemon import Run

ID = "C23"
RULE = ("solver runs as in C17 with their linear solves recorded, repeated with several resampling sizes (2 to 200, coinciding or not with the "
        "computed steps); start, end, common pseudo-times and intermediate times compared with the full history, active set and error with the "
        "recorded solves; non-trivial = new history with at least 2 steps")
NEED = {"runs": 60, "resampled runs": 200, "common times": 2000, "steps reported": 400, "active sets": 300, "intermediate times": 2000}
ASSUMPTIONS = ["as C17"]


def cases(rng, tier):
    k = 420 if tier == "quick" else 4000
    for i in range(k):
        s = gen.solve_spec(rng, 1, 24 if i % 10 else 60)
        s["opts"]["packing"] = gen.pick(rng, [1., 1.2, 2., 4.])
        yield s


def run(case, mon):
    r = gen.rng_of(case, 23)
    o = Run(case, record=True)
    mon.ev("runs")
    T = o.T
    t = np.linspace(0, 1, T)
    good = [c for c in o.calls][:T - 1]
    mon.check(len(o.calls) in (T - 1, T) and len(good) == T - 1, "computed steps are lost", solves=len(o.calls), steps=T - 1)
    full = {"u": o.u, "f": o.fo, "F": o.F, "H": o.H, "Z": o.Z}
    hist = {}
    for k, a in (*full.items(), ("rlambda", o.rl), ("mask", o.mask), ("err", o.err)):
        mon.check(len(a.t) == T, "history length of %s" % k, got=len(a.t), expected=T)
        hist[k] = np.array([a(x) for x in a.t])
    # from rest
    mon.check(not hist["u"][0].any() and not hist["f"][0].any() and not hist["F"].any(), "does not start from rest")
    mon.check(hist["rlambda"][0] == 1. and hist["err"][0] == 0., "initial compaction or error", got=[hist["rlambda"][0], hist["err"][0]])
    mon.check(abs(hist["Z"][0] - o.top) <= 1e-9 * (1 + o.top), "wall does not start on the highest fiber", got=hist["Z"][0], expected=o.top)
    c = np.stack(o.clearances(hist["u"][:, ::2], hist["Z"]), axis=2).reshape(T, -1)
    h0 = hist["H"][0]
    mon.near(h0, c[0], 1e-9 * (1 + o.top), "initial bounds are not the initial clearances")
    mon.near(hist["Z"], hist["Z"][0] / hist["rlambda"], 1e-9 * o.top, "wall and compaction histories do not match")
    # one entry per computed step
    for k in range(T - 1):
        A, b, x = (good[k][i] for i in "Abx")
        e = np.linalg.norm(A @ x - b)
        mon.check(abs(hist["err"][k + 1] - e) <= 1e-9 + 1e-3 * e, "reported error is not the residual of the step", step=k, got=hist["err"][k + 1], expected=e)
        act, unsure = o.active(c[k], o.tol)
        m = hist["mask"][k + 1]
        if mon.check(m.dtype == bool and len(m) == len(act), "type of the active set", got=str(m.dtype)):
            mon.check(((m == act) | unsure).all(), "active set is not that of the step", step=k, differences=np.flatnonzero(m != act))
            mon.check(m.sum() == len(b), "active set does not match the solved system", step=k)
        mon.ev("active sets"); mon.ev("steps reported")
    # resampled
    sizes = {2, int(r.integers(3, 30)), 2 * (T - 1) + 1 if T > 1 else 5, T if T > 1 else 3, int(r.integers(30, 200))}
    for size in sorted(sizes):
        v = Run(case, interp_size=size)
        mon.ev("resampled runs")
        for k, a in (("rlambda", v.rl), ("mask", v.mask), ("err", v.err)):
            mon.check(len(a.t) == T and np.array_equal(np.array([a(x) for x in a.t]), hist[k]), "%s is not reported for every step" % k, size=size)
        tt = np.linspace(0, 1, size)
        q = r.random(4)
        for k, a in zip(("u", "f", "F", "H", "Z"), v.out[2:7]):
            if not mon.check(len(a.t) == size and np.abs(a.t - tt).max() < 1e-12, "pseudo-times of %s" % k, got=len(a.t), size=size):
                continue
            sc = np.abs(hist[k][np.isfinite(hist[k])]).max(initial=0)
            got = np.array([a(x) for x in tt])
            ref = lerp(hist[k], tt)
            mon.near(got, ref, 1e-9 * sc, "%s differs from the full history at a common time" % k, size=size)
            mon.near(np.array([full[k](x) for x in tt]), ref, 1e-9 * sc, "%s is not linear between steps" % k)
            mon.check(np.array_equal(got[0], hist[k][0]), "%s does not start with the first step" % k, size=size)
            mon.near(a(1), hist[k][-1], 1e-12 * sc, "%s does not end at the last step" % k, size=size)
            mon.near(np.array([a(x) for x in q]), lerp(ref, q), 1e-9 * sc, "%s between resampled times" % k, size=size)
            mon.ev("common times", size); mon.ev("intermediate times", len(q))
    if T > 2:
        mon.key(np.round(hist["rlambda"], 6).tobytes())
        mon.sample = {"steps": T - 1, "sizes": sorted(sizes), "rlambda": hist["rlambda"][-1]}


def lerp(y, q):
    n = len(y)
    if n == 1:
        return np.repeat(y, len(q), 0)
    p = np.asarray(q) * (n - 1)
    i = np.clip(np.floor(p + 1e-12).astype(int), 0, n - 2)
    w = np.clip(p - i, 0, 1).reshape(-1, *[1] * (y.ndim - 1))
    a, b = np.broadcast_arrays(y[i], y[i + 1])
    with np.errstate(invalid="ignore"):
        return np.where(a == b, a, (1 - w) * a + w * b)
