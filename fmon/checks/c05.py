"""C05: non-periodic network = pairs of fibers that cross (brute-force geometric oracle)."""
import numpy as np
from .. import gen, geom

ID = "C05"
RULE = ("fiber sets of 15 families (uniform, unequal lengths, lattices, parallel/antiparallel bundles, common crossing points, "
        "faces/corners, needles, inclined...), 0-45 fibers, non-periodic; every pair of fibers is judged by an independent "
        "scalar crossing computation; non-trivial = a network not seen before with at least one crossing and one non-crossing pair")
NEED = {"pairs:yes": 500, "pairs:no": 500, "family:tilted": 1, "unequal lengths": 5, "crowds": 3}
ASSUMPTIONS = ["pairs whose crossing lies within 1e-7 of a fiber end, or nearly parallel beyond double precision, are not judged"]


def cases(rng, tier):
    k = 1440 if tier == "quick" else 12000
    for i in range(k):
        fam = gen.ALL[i % len(gen.ALL)]
        s = gen.spec(rng, [fam], *((0, 3) if i % 17 == 0 else (4, 45)), periodic=False)
        if i % 40 == 39:
            s["n"] = int(rng.integers(60, 160))
        if i % 5 == 0:
            s["scale"] = gen.pick(rng, [1e-3, 1e3, .1])
        gen.large(rng, i, 100, s)
        yield s
    for i in range(5 if tier == "quick" else 40):
        # thousands of fibers (sizes around powers of two, and any)
        n = gen.pick(rng, [1024, 2048]) + int(rng.integers(-1, 3)) if i % 5 < 3 else int(rng.integers(700, 2600))
        yield {"fam": "uniform", "n": n, "seed": int(rng.integers(2 ** 31)), "size": 100., "length": 5., "periodic": False, "crowd": True}


def crowd(mon, t, net):
    """The same by orientations of triangles, for thousands of fibers at once."""
    n = len(t)
    p, d = t[["x", "y"]].values, t[["u", "v"]].values * .5 * t.l.values[:, None]
    P, Q = p - d, p + d

    def side(a, b, c):
        """Distance from points c to lines (a, b), with sign."""
        ab = b - a
        return (ab[..., 0] * (c[..., 1] - a[..., 1]) - ab[..., 1] * (c[..., 0] - a[..., 0])) / np.hypot(ab[..., 0], ab[..., 1])
    got = net[["A", "B"]].values.astype(int)
    link = np.zeros((n, n), int)
    np.add.at(link, (got[:, 0], got[:, 1]), 1)
    mon.check((np.diag(link) == 1).all(), "not exactly one end-point row per fiber", fibers=np.flatnonzero(np.diag(link) != 1)[:5])
    mon.check(not np.tril(link, -1).any(), "labels of a connection not ordered")
    for i in range(n - 1):
        j = slice(i + 1, n)
        a, b = side(P[i], Q[i], P[j]), side(P[i], Q[i], Q[j])
        c, e = side(P[j], Q[j], P[i]), side(P[j], Q[j], Q[i])
        yes = (a * b < 0) & (c * e < 0)
        sure = np.minimum.reduce([abs(a), abs(b), abs(c), abs(e)]) > 1e-6
        bad = sure & (link[i, j] != yes)
        if not mon.check(not bad.any(), "wrong number of connections of a pair", pair=(i, i + 1 + int(bad.argmax())), expected=bool(yes[bad.argmax()])):
            return
        mon.ev("pairs:yes", int((sure & yes).sum()))
        mon.ev("pairs:no", int((sure & ~yes).sum()))
    mon.ev("crowds")
    mon.key(n, len(net))


def judge(mon, t, net, periodic):
    exp = geom.expected(t, periodic)
    n = len(t)
    A, B = net.A.values, net.B.values
    got = {}
    selfrows = np.zeros(n, int)
    for k in range(len(net)):
        a, b = int(A[k]), int(B[k])
        if a == b:
            selfrows[a] += 1
            continue
        mon.check(a < b, "labels of a connection not ordered", row=k, A=a, B=b)
        got.setdefault((a, b), []).append(k)
    mon.check((selfrows == 1).all(), "not exactly one end-point row per fiber", counts=selfrows)
    for (i, j), (v, yes, amb) in exp.items():
        rows = got.pop((i, j), [])
        mon.ev("pairs:" + {"yes": "yes", "no": "no", "?": "degenerate"}[v])
        if v == "?":
            mon.note("degenerate pairs")
            mon.check(len(rows) <= 1, "pair connected more than once", pair=(i, j))
            continue
        want = 1 if v == "yes" else 0
        if not mon.check(len(rows) == want, "wrong number of connections of a pair", pair=(i, j), expected=want,
                         got=len(rows), crossings=yes[:3]):
            continue
    mon.check(not got, "connections between unknown fibers", pairs=list(got)[:5])
    return exp


def run(case, mon):
    from fibermat import Net
    t = gen.table(case)
    m = gen.mat(case)
    net = Net(m, periodic=False)
    if case.get("crowd"):
        return crowd(mon, t, net)
    exp = judge(mon, t, net, False)
    mon.check(net.attrs.get("periodic") is False or net.attrs.get("periodic") == False, "periodicity attribute", got=net.attrs)
    mon.ev("networks")
    mon.ev("family:" + case["fam"])
    if t["l"].nunique() > 1:
        mon.ev("unequal lengths")
    v = [e[0] for e in exp.values()]
    if "yes" in v and "no" in v:
        mon.key(sorted(k for k, e in exp.items() if e[0] == "yes"))
        mon.sample = {"fibers": len(t), "connected": v.count("yes"), "apart": v.count("no"), "rows": len(net)}
