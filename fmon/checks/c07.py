"""C07: connection nodes lie on their fibers, at mutually closest points; explicit pairs."""
import numpy as np
from .. import gen, geom

ID = "C07"
RULE = ("fiber sets of 15 families (planar and inclined), periodic or not, with the full search, and with explicit pair lists "
        "(random subsets, reversed, duplicated, with or without self pairs); each row is checked against the parametric equation "
        "of its fibers and the orthogonality of the common normal; non-trivial = new set of abscissae with a connection")
NEED = {"connections": 2000, "end rows": 500, "explicit lists": 30, "explicit connections": 100, "inclined connections": 50}
ASSUMPTIONS = ["fiber length <= box size for periodic networks"]


def cases(rng, tier):
    k = 1200 if tier == "quick" else 9000
    for i in range(k):
        fam = gen.ALL[i % len(gen.ALL)]
        s = gen.spec(rng, [fam], 1, 40)
        s["pairs"] = gen.pick(rng, ["none", "none", "subset", "reversed", "dup", "self", "empty", "one", "one"])
        if i % 7 == 0:
            s["scale"] = gen.pick(rng, [1e-3, 1e3])
        gen.large(rng, i, 100, s)
        yield s


def rows_ok(mon, t, net, periodic):
    a = geom.arrays(t)
    size = t.attrs["size"]
    l, X, U = a["l"], a["X"], a["U"]
    A, B = net.A.values.astype(int), net.B.values.astype(int)
    sA, sB = net.sA.values, net.sB.values
    PA, PB = net[["xA", "yA", "zA"]].values, net[["xB", "yB", "zB"]].values
    big = np.maximum(l[A], l[B]) + size if len(net) else np.zeros(0)
    tol = 1e-9 * big
    mon.near(PA, X[A] + sA[:, None] * U[A], tol[:, None], "first node is not on its fiber")
    mon.near(PB, X[B] + sB[:, None] * U[B], tol[:, None], "second node is not on its fiber")
    e = A == B
    mon.near(sA[e], .5 * l[A[e]], 1e-12 * big[e], "first end point")
    mon.near(sB[e], -.5 * l[A[e]], 1e-12 * big[e], "second end point")
    mon.ev("end rows", e.sum())
    c = ~e
    mon.ev("connections", c.sum())
    mon.check((np.abs(sA[c]) < .5 * l[A[c]]).all() and (np.abs(sB[c]) < .5 * l[B[c]]).all(),
              "abscissa outside the fiber", rows=np.flatnonzero(c)[(np.abs(sA[c]) >= .5 * l[A[c]]) | (np.abs(sB[c]) >= .5 * l[B[c]])][:5])
    best = np.full(len(net), np.inf)
    for d in geom.shifts(size, periodic):
        r = PB - PA + np.array([d[0], d[1], 0.])
        res = np.maximum(np.abs((r * U[A]).sum(1)), np.abs((r * U[B]).sum(1)))
        # parallel-ish lines: only the residual along the lines matters
        best = np.fmin(best, res)
    # the common normal is orthogonal to both lines
    bad = c & ~(best <= 1e-8 * big)
    mon.check(not bad.any(), "nodes are not the points of closest approach", rows=np.flatnonzero(bad)[:5], residual=best[bad][:5])
    if not np.allclose(U[:, 2], 0):
        mon.ev("inclined connections", c.sum())
    return c


def run(case, mon):
    from fibermat import Net
    t = gen.table(case)
    m = gen.mat(case)
    per = case["periodic"]
    full = Net(m, periodic=per)
    c = rows_ok(mon, t, full, per)
    if c.any():
        mon.key(np.round(full[["sA", "sB"]].values[c] / t.l.max(), 6).tobytes())
        i = int(np.flatnonzero(c)[0])
        mon.sample = full.iloc[i].to_dict()
    kind, n = case["pairs"], len(t)
    if kind == "none" or n == 0:
        return
    r = gen.rng_of(case, 7)
    ij = np.c_[np.triu_indices(n)]
    sub = ij[r.random(len(ij)) < r.choice([.1, .5, .9])]
    if kind == "self":
        sub = np.unique(np.r_[sub, np.c_[np.arange(n), np.arange(n)]], axis=0)
    elif kind == "reversed":
        sub = np.where((r.random(len(sub)) < .5)[:, None], sub, sub[:, ::-1])
    elif kind == "dup":
        sub = np.r_[sub, sub[: len(sub) // 2], sub[: len(sub) // 2, ::-1]]
        sub = sub[r.permutation(len(sub))]
    elif kind == "one":
        # a single crossing, in either order
        hit = full[full.A != full.B][["A", "B"]].values
        sub = hit[r.integers(0, len(hit), 1)][:, ::gen.pick(r, [1, -1])] if len(hit) else sub[:1]
    elif kind == "empty":
        sub = sub[:0]
    # explicit pairs are fiber indices: direct crossings only
    ref = Net(m, periodic=False) if per else full
    got = Net(m, periodic=per, pairs=sub.copy())
    mon.ev("explicit lists")
    rows_ok(mon, t, got, False)
    want = {(min(i, j), max(i, j)) for i, j in sub.tolist()}
    exp = ref[[(a, b) in want for a, b in zip(ref.A, ref.B)]]
    mon.ev("explicit connections", (exp.A != exp.B).sum())
    e, g = exp.sort_values(["A", "B"]), got.sort_values(["A", "B"])
    same = mon.check([*zip(e.A, e.B)] == [*zip(g.A, g.B)], "explicit pairs give another set of connections",
                     expected=len(e), got=len(g), missing=sorted(set(zip(e.A, e.B)) - set(zip(g.A, g.B)))[:5],
                     extra=sorted(set(zip(g.A, g.B)) - set(zip(e.A, e.B)))[:5])
    if same:
        mon.near(g[["sA", "sB"]].values, e[["sA", "sB"]].values, 1e-9 * t.l.max(), "explicit pairs give other abscissae")
