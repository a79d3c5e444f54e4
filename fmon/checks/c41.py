"""C41: the work of the press is stored in the beams, and the mat stiffens as it is compacted."""
import numpy as np
from .. import gen
from ..solvemon import Run, cond1

ID = "C41"
RULE = ("solver runs as in C17 with their linear solves recorded; at every stored step and at random times the work of the wall (force integrated over its position), the energy "
        "1/2 u.K.u of the beams and the work lost by contacts are balanced; wall force and its slope against the position of the wall compared from step to step; non-trivial = "
        "new history with at least 2 steps and stored energy")
NEED = {"runs": 300, "energy balances": 3000, "slopes compared": 600, "balances to 1e-6": 1000, "slopes to 1e-6": 300, "sets at rest": 300, "energy by fiber": 2000}
ASSUMPTIONS = ["as C17", "systems with condition numbers below 1e11; steps after a closed contact was lost to rounding are not judged"]


def cases(rng, tier):
    k = 900 if tier == "quick" else 9000
    for i in range(k):
        s = gen.solve_spec(rng, 2, 26 if i % 10 else 60)
        s["opts"]["packing"] = gen.pick(rng, [1.5, 2., 4., 6.])
        yield s


def run(case, mon):
    r = gen.rng_of(case, 41)
    o = Run(case, record=True, errtol=np.inf)
    mon.ev("runs")
    t = o.u.t
    u = np.array([o.u(x) for x in t])
    f = np.array([o.fo(x) for x in t])
    Z = np.array([float(o.Z(x)) for x in t])
    W = f[:, 2::3].sum(1)
    mon.check(W[0] == 0 and not u[0].any(), "the press pushes on a mat at rest", force=W[0])
    mon.ev("sets at rest")
    K = o.K.tocoo()
    bad = ~np.isfinite(K.data)
    free = np.ones(K.shape[0], bool)
    free[K.row[bad]] = False
    keep = free[K.row] & free[K.col]
    kr, kc, kd = K.row[keep], K.col[keep], K.data[keep]
    fib = o.f[kr // 2]

    def energy(x):
        return .5 * kd * x[kr] * x[kc]
    cnd, T = 1., o.T
    for k in range(1, T):
        c = o.calls[k - 1]
        cnd = max(cnd, cond1(c["A"]))
        lost = (o.mask(t[k - 1]) & ~o.mask(t[k]))[2 * o.N:] if k > 1 else np.zeros(1, bool)
        if lost.any():
            # (rounding of ill-conditioned systems may open a contact beyond the tolerance)
            gap = np.stack(o.clearances(u[k - 1][::2], Z[k - 1]), axis=1).ravel()[lost]
            mon.check((gap > o.tol - 1e-12 * (1 + o.top)).all(), "a closed contact is released", step=k, gaps=gap[gap <= o.tol][:4])
            mon.check(cnd > 1e6 or (gap <= 2 * o.tol).all(), "a closed contact opens", step=k, gaps=gap[:4], condition=cnd)
        if cnd > 1e11 or lost.any():
            mon.note("ill-conditioned or contact lost")
            T = k
            break
    if T < 2:
        return
    d = -np.diff(Z[:T])
    mon.check((d >= -1e-12 * o.top).all(), "the press goes up", worst=d.min())
    rel = 1e-8 + 1e-14 * cnd
    # work of the wall against stored energy, at steps and between them
    work = np.r_[0., np.cumsum(.5 * (W[1:T] + W[:T - 1]) * d)]
    E = np.array([energy(x).sum() for x in u[:T]])
    sc = np.array([np.abs(energy(x)).sum() for x in u[:T]])
    tot = np.maximum.accumulate(np.maximum(np.abs(work), np.abs(E)))
    # (closed contacts do not move, up to rounding; rounding of a sum of large terms)
    tol = 10 * rel * tot + np.abs(f[:T]).sum(1) * o.top * 1e-11 * np.arange(1, T + 1) + 1e-13 * np.maximum.accumulate(sc) * min(1e4, 1 + np.sqrt(cnd))
    mon.near(E, work, tol, "work of the press is not stored in the beams", steps=T - 1)
    mon.ev("energy balances", T)
    mon.ev("balances to 1e-6", (tol < 1e-6 * tot).sum())
    for k, x in zip(range(T - 1), r.random(T - 1)):
        if d[k] <= 1e-9 * o.top:
            continue
        x = t[k] + x * (t[k + 1] - t[k])
        ux, w, zx = o.u(x), o.fo(x)[2::3].sum(), float(o.Z(x))
        mon.near(energy(ux).sum(), work[k] + .5 * (W[k] + w) * (Z[k] - zx), tol[k + 1], "work of the press is not stored in the beams between steps", at=x)
        mon.ev("energy balances")
    # every beam stores energy, none gives any
    for k in range(1, T):
        e = np.bincount(fib, energy(u[k]), len(o.m))
        s = np.bincount(fib, np.abs(energy(u[k])), len(o.m))
        mon.check((e >= -1e-12 * s - tol[k]).all(), "a fiber stores negative energy", worst=e.min())
        mon.ev("energy by fiber", (s > 0).sum())
    # force and slope
    y = np.flatnonzero(d > 1e-7 * o.top)
    if len(y):
        s = np.diff(W[:T])[y] / d[y]
        e = 10 * rel * np.maximum.accumulate(np.abs(s)) + 1e-13 * np.abs(kd).max(initial=0.) * (1 + 1e-2 * np.sqrt(cnd))
        mon.check((s >= -e).all(), "the force of the press decreases", worst=s.min(), tolerance=e.max())
        mon.check((np.diff(s) >= -2 * e[1:]).all(), "the mat softens", worst=np.diff(s).min(initial=0), slopes=s)
        mon.ev("slopes compared", len(y) - 1)
        mon.ev("slopes to 1e-6", (e < 1e-6 * np.maximum(s, 0)).sum())
    if T > 2 and E[T - 1] > 0:
        mon.key(np.round(W[:T] / max(W[T - 1], 1e-300), 6).tobytes())
        mon.sample = {"steps": T - 1, "work": float(work[-1]), "energy": float(E[-1]), "condition": cnd}
