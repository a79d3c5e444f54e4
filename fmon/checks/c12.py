"""C12: weights, separation conditions and reactions of the stacking program."""
import numpy as np
from .. import gen
from .c09 import stacked
from .c10 import lowest

ID = "C12"
RULE = ("fiber sets of 15 families (1-60 fibers, unequal sections); the assembled program is compared term by term with weights and pair "
        "separations computed from the tables; reactions (multipliers) of the solution are checked for sign, complementarity, balance of "
        "each fiber and total floor load; non-trivial = new set of reactions with at least one loaded contact")
NEED = {"weights": 3000, "separation rows": 4000, "balanced fibers": 3000, "loaded contacts": 300, "floor loads": 200}
ASSUMPTIONS = ["reactions are read from the multipliers (marginals) of the returned optimisation result"]


def cases(rng, tier):
    k = 900 if tier == "quick" else 8000
    for i in range(k):
        fam = gen.ALL[i % len(gen.ALL)]
        s = gen.spec(rng, [fam], 1, 60)
        s["explicit"] = bool(i % 7 == 6)
        gen.large(rng, i, 100, s)
        yield s


def run(case, mon):
    from fibermat import Stack, Net
    t, m, net, st = stacked(case)
    n = len(t)
    C, f, H, h = Stack.constraint(m, net)
    f, H, h = np.asarray(f, float), np.asarray(H, float), np.asarray(h, float)
    W = np.array([np.pi / 4 * m.l[i] * m.b[i] * m.h[i] for i in range(n)])
    mon.near(f, W, 1e-12 * W.max(), "weight of a fiber")
    mon.ev("weights", n)
    mon.near(h, m.h.values, 0, "thickness vector")
    A, B = net.A.values, net.B.values
    c = A < B
    C = C.tocsr()
    mon.check(C.shape == (c.sum(), n) and len(H) == c.sum(), "number of separation conditions", got=C.shape, expected=int(c.sum()))
    want = sorted((int(a), int(b)) for a, b in zip(A[c], B[c]))
    got = []
    for k in range(C.shape[0]):
        row = C.getrow(k)
        d = {int(j): v for j, v in zip(row.indices, row.data) if v != 0}
        lo = [j for j, v in d.items() if v > 0]
        hi = [j for j, v in d.items() if v < 0]
        if not mon.check(len(lo) == 1 and len(hi) == 1 and d[lo[0]] == 1 and d[hi[0]] == -1, "separation row", row=k, entries=str(d)):
            return
        a, b = lo[0], hi[0]
        got.append((a, b))
        mon.check(abs(H[k] + .5 * (m.h[a] + m.h[b])) <= 1e-12 * m.h.max(), "separation distance", pair=(a, b), got=H[k])
    mon.ev("separation rows", len(got))
    mon.check(sorted(got) == want, "separation conditions are not those of the connected pairs")
    sol = Stack.solve(m, net)
    mon.check(bool(sol.success), "stacking did not succeed", status=str(sol.message))
    R = -np.asarray(sol.ineqlin.marginals) if len(H) else np.zeros(0)
    N = np.asarray(sol.lower.marginals)
    eps = 1e-6 * W.sum()
    mon.check((R >= -eps).all() and (N >= -eps).all(), "tensile reaction", contact=R.min() if len(R) else 0, floor=N.min())
    z = np.asarray(sol.x)
    tol = 1e-6 * max(1e-3, h.max())
    bal = N - W
    for (a, b), q in zip(got, R):
        bal[b] += q
        bal[a] -= q
        gap = z[b] - z[a] - .5 * (h[a] + h[b])
        if q > eps:
            mon.ev("loaded contacts")
            mon.check(gap <= tol, "force on an open contact", pair=(a, b), gap=gap, force=q)
    mon.check((N[z > .5 * h + tol] <= eps).all(), "floor reaction on a raised fiber")
    mon.near(bal, np.zeros(n), eps, "weight not balanced by reactions")
    mon.ev("balanced fibers", n)
    mon.near(N.sum(), W.sum(), eps, "floor does not carry the total weight")
    mon.ev("floor loads")
    mon.near(z, lowest(h, A, B), tol, "solution is not the lowest configuration")
    if (R > eps).any():
        mon.key(np.round(R / W.max(), 5).tobytes())
        mon.sample = {"fibers": n, "total weight": W.sum(), "loaded contacts": int((R > eps).sum())}
