"""C09: stacked fibers never penetrate each other or the floor; heights agree everywhere."""
import numpy as np
from .. import gen

ID = "C09"
RULE = ("fiber sets of 15 families (0-60 fibers, unequal thicknesses, unsorted initial heights), networks periodic or not, full or from "
        "explicit pair lists, thresholds; every connected pair and every fiber is checked after stacking; non-trivial = new vector of "
        "heights with at least one fiber resting on another")
NEED = {"separations": 5000, "fibers": 3000, "upper fibers": 500, "unequal thicknesses": 30, "unsorted": 30, "explicit": 10, "inclined": 10}
ASSUMPTIONS = ["heights are those of the fiber centres"]


def cases(rng, tier):
    k = 960 if tier == "quick" else 8000
    for i in range(k):
        fam = gen.ALL[i % len(gen.ALL)]
        s = gen.spec(rng, [fam], *((0, 2) if i % 29 == 0 else (3, 60)))
        s["threshold"] = gen.pick(rng, [None, None, 0., .04 * s["length"], float("inf")])
        s["explicit"] = bool(i % 6 == 5)
        gen.large(rng, i, 100, s)
        yield s


def stacked(case):
    """(table before, mat, net, stack)"""
    from fibermat import Net, Stack
    t = gen.table(case)
    m = gen.mat(case)
    pairs = None
    if case.get("explicit") and len(t):
        r = gen.rng_of(case, 9)
        ij = np.c_[np.triu_indices(len(t))]
        keep = (r.random(len(ij)) < r.choice([.3, .7])) | (ij[:, 0] == ij[:, 1])
        pairs = ij[keep]
    net = Net(m, periodic=case["periodic"], pairs=pairs)
    st = Stack(m, net, threshold=case.get("threshold"))
    return t, m, net, st


def run(case, mon):
    from fibermat import Mesh
    t, m, net, st = stacked(case)
    n = len(t)
    z, h = m.z.values, m.h.values
    A, B = net.A.values, net.B.values
    tol = 1e-7 * max(1e-3, h.max()) if n else 0
    mon.ev("fibers", n)
    mon.check(np.isfinite(z).all(), "undefined heights")
    mon.check((z >= .5 * h - tol).all(), "fiber below the floor", fiber=np.flatnonzero(z < .5 * h - tol)[:4])
    c = A != B
    gap = z[B[c]] - z[A[c]] - .5 * (h[A[c]] + h[B[c]])
    mon.ev("separations", c.sum())
    mon.check((gap >= -tol).all(), "connected fibers penetrate or are in the wrong order", pairs=np.c_[A[c], B[c]][gap < -tol][:4],
              gap=gap[gap < -tol][:4])
    # the same heights in the stack and the mesh
    w = m.w.values
    for k in "AB":
        mon.near(st["z" + k].values, z[st[k].values] + st["s" + k].values * w[st[k].values], 1e-9 * (1 + np.abs(z).max() if n else 0) , "stack height z" + k)
    mesh = Mesh(st)
    mon.near(mesh.z.values, z[mesh.fiber.values] + mesh.s.values * w[mesh.fiber.values], 1e-9 * (1 + np.abs(z).max() if n else 0), "mesh height")
    up = z > .5 * h + 1e-6 * h.max() if n else np.zeros(0, bool)
    mon.ev("upper fibers", up.sum())
    mon.ev("unequal thicknesses", n and np.ptp(h) > 0)
    mon.ev("unsorted", n and (np.diff(t.z) < 0).any())
    mon.ev("explicit", bool(case["explicit"]))
    mon.ev("inclined", n and (w != 0).any() and c.any())
    if up.any():
        mon.key(np.round(z / h.max(), 6).tobytes())
        mon.sample = {"fibers": n, "contacts": int(c.sum()), "top": z.max()}
