"""C20: progress by contact events, documented stops, prefixes."""
import numpy as np
import scipy.sparse.linalg as spl
from .. import gen
from ..solvemon import Run, TooManySolves

ID = "C20"
RULE = ("solver runs with a recording linear solver, targets below 1 to 20 and limits 0 to 400, contact and error tolerances varied, plus runs "
        "where the linear solver fails (raises, returns undefined or wrong values) at a chosen call; the log of linear solves, wall positions and "
        "clearances is replayed by an offline checker that classifies the stop; each run is repeated with a larger target and limit; "
        "non-trivial = new history of at least 2 steps or a stop of its own kind")
NEED = {"runs": 200, "linear solves": 800, "steps": 700, "stop: target": 20, "stop: limit": 20, "stop: nothing to do": 20,
        "prefix comparisons": 150, "injected failures": 20, "stop: failed solve": 50, "stop: inaccurate": 2, "conditions closed": 1000}
ASSUMPTIONS = ["as C17", "a stop is accepted as jammed or inaccurate when the recorded solve raised, is undefined, leaves a residual above the "
               "tolerance, or closes no open clearance"]


def cases(rng, tier):
    k = 1000 if tier == "quick" else 5000
    for i in range(k):
        s = gen.solve_spec(rng, 1, 22 if i % 10 else 60)
        o = s["opts"]
        o["itermax"] = gen.pick(rng, [0, 1, 2, 3, 5, 17, 60, 400, 400, 400])
        o["packing"] = gen.pick(rng, [.5, 1., 1.0001, 1.2, 1.5, 2., 4., 4., 8., 20.])
        o["tol"] = gen.pick(rng, [1e-6, 1e-6, 1e-6, 1e-9, 1e-4])
        o["errtol"] = gen.pick(rng, [1e-6, 1e-6, 1e-4, 1e-9])
        if i % 4 == 3:
            s["fail"] = [int(rng.integers(0, 4)), gen.pick(rng, ["RuntimeError", "LinAlgError", "nan", "wrong"])]
            o["itermax"], o["packing"] = 60, 6.
        yield s


def run(case, mon):
    op = case["opts"]
    fail = case.get("fail")
    count = [0]

    def inner(A, b):
        count[0] += 1
        if fail and count[0] == fail[0] + 1:
            mon.ev("injected failures")
            if fail[1] == "RuntimeError":
                raise RuntimeError("Factor is exactly singular")
            if fail[1] == "LinAlgError":
                raise np.linalg.LinAlgError("singular matrix")
            if fail[1] == "nan":
                return np.full(len(b), np.nan)
            return spl.spsolve(A, b) + 1.
        return spl.spsolve(A, b)

    try:
        o = Run(case, record=True, inner=inner)
    except TooManySolves:
        mon.violate("more linear solves than the iteration limit", limit=op["itermax"])
        return
    mon.ev("runs")
    s = o.T - 1
    n = len(o.calls)
    mon.ev("linear solves", n); mon.ev("steps", s)
    Z, rl = np.atleast_1d(o.Z(o.Z.t)), np.atleast_1d(o.rl(o.rl.t))
    U = np.array([o.u(x) for x in o.u.t])[:, ::2]
    if not mon.check(len(Z) == len(U) == s + 1, "histories of different lengths", got=[len(Z), len(U), s + 1]):
        return
    mon.check(n <= op["itermax"], "more linear solves than the iteration limit", solves=n, limit=op["itermax"])
    mon.check(s <= n <= s + 1, "steps and linear solves do not match", steps=s, solves=n)
    # descent and reported compaction
    if s:
        mon.check((np.diff(Z) < 0).all(), "the wall does not descend at each step", worst=np.diff(Z).max())
    mon.near(rl, Z[0] / Z, 1e-12 * np.abs(rl), "reported compaction is not initial over current height")
    mon.check(abs(Z[0] - o.top) <= 1e-9 * (1 + o.top), "initial height", got=Z[0], expected=o.top)
    mon.check((rl[:-1] < op["packing"]).all(), "continues beyond the target", rlambda=rl[-2] if s else None, target=op["packing"])
    # contact events
    c = np.stack(o.clearances(U, Z), axis=2).reshape(s + 1, -1)
    e = 1e-8 * (1 + o.top)
    tol = op["tol"]
    for k in range(s):
        new = (c[k] > tol) & (c[k + 1] <= tol + e)
        mon.check(new.any(), "a step ends without a new contact", step=k, nearest=c[k + 1][c[k] > tol].min() if (c[k] > tol).any() else None)
        mon.check((c[k + 1][c[k] <= tol] <= tol + e).all(), "a closed condition opens", step=k, by=c[k + 1][c[k] <= tol].max(initial=0))
        mon.ev("conditions closed", new.sum())
        A, b, x = (o.calls[k][i] for i in "Abx")
        mon.check(x is not None and np.linalg.norm(A @ x - b) <= op["errtol"], "an inaccurate solution was used", step=k)
    # every solve sees exactly the closed conditions and the defined degrees of freedom
    P, q = o.system()
    for k in range(min(n, s + 1)):
        act, unsure = o.active(c[k], tol)
        if unsure.any():
            mon.note("clearance at the tolerance")
            continue
        a = np.flatnonzero(act)
        A, b = o.calls[k]["A"], o.calls[k]["b"]
        if mon.check(A.shape == (len(a), len(a)), "linear system not restricted to the closed conditions", step=k, got=A.shape, expected=len(a)):
            mon.near(b, q[a], 1e-12, "right-hand side of the closed conditions", step=k)
            D = abs(A - P[a][:, a]).tocsr()
            mon.check(D.nnz == 0 or D.max() <= 1e-9 * abs(A).max(), "linear system differs from the assembled one", step=k)
    # documented reason to stop
    if rl[-1] >= op["packing"] or s == op["itermax"]:
        why = "target" if rl[-1] >= op["packing"] else "limit"
        mon.check(n == s, "a linear solve after the end", solves=n, steps=s)
        if n == 0:
            why = "nothing to do"
    elif mon.check(n == s + 1, "stops without reason: target and limit not reached, no further linear solve", steps=s, limit=op["itermax"],
                   rlambda=rl[-1], target=op["packing"]):
        A, b, x = (o.calls[s][i] for i in "Abx")
        if x is None or not np.isfinite(x).all():
            why = "failed solve"
        elif not np.linalg.norm(A @ x - b) <= .5 * op["errtol"]:
            why = "inaccurate"
        else:
            why = "jam"
            # velocities: active unknowns are the defined degrees of freedom followed by the closed conditions
            dof = np.flatnonzero(o.active(c[s], tol)[0][:2 * o.N])
            du = np.zeros(2 * o.N)
            du[dof] = np.real(x[:len(dof)])
            lo, hi = du[::2][o.lo], du[::2][o.hi]
            v = np.stack([lo, hi - lo, 1 - hi], axis=1).ravel()
            open_ = (c[s] > tol) & np.isfinite(c[s])
            mon.check(not (v[open_] > 1e-6).any(), "stops although an open clearance is closing", steps=s, rate=v[open_].max(initial=0), rlambda=rl[-1],
                      residual=np.linalg.norm(A @ x - b))
    else:
        why = "unknown"
    mon.ev("stop: " + why)
    if op["itermax"] == 0 or op["packing"] <= 1:
        mon.check(n == 0 and s == 0, "solves although there is nothing to do", solves=n, steps=s)
    # raising the target and the limit only extends the history
    if not fail or fail[1] != "wrong":
        o2 = Run(case, packing=op["packing"] + 1., itermax=op["itermax"] + 7)
        m = min(o2.T, o.T) if fail else o.T
        if mon.check(fail is not None or o2.T >= o.T, "a longer run has fewer steps", short=o.T, long=o2.T):
            for name, a, b in (("displacements", o.u, o2.u), ("forces", o.fo, o2.fo), ("wall", o.Z, o2.Z), ("compaction", o.rl, o2.rl),
                               ("bounds", o.H, o2.H), ("active set", o.mask, o2.mask)):
                p, q = stored(a, m), stored(b, m)
                mon.check(np.array_equal(p, q), "earlier steps change with the target or the limit: " + name)
            mon.ev("prefix comparisons")
    if s >= 2 or why not in ("target", "limit"):
        mon.key(why, s, np.round(rl, 6).tobytes())
        mon.sample = {"stop": why, "steps": s, "solves": n, "rlambda": float(rl[-1]), "target": op["packing"], "limit": op["itermax"]}


def stored(a, m):
    """First m stored samples (nodes of the interpolation)."""
    return np.array([a(x) for x in a.t[:m]])
