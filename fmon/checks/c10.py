"""C10: stacked heights are the lowest ones (independent recursion), and nothing else matters."""
import numpy as np
from .. import gen
from .c09 import stacked

ID = "C10"
RULE = ("fiber sets of 15 families (1-70 fibers); heights compared with the recursion z_B = max(h_B/2, z_A + (h_A+h_B)/2 over connected "
        "A < B) on the observed connections; the same network is stacked again from other initial heights and with other lengths, widths "
        "and moduli, and the stacked set once more; non-trivial = new vector of heights with a fiber on another")
NEED = {"heights": 3000, "supported by a fiber": 500, "restacked": 100, "other weights": 100}


def cases(rng, tier):
    k = 900 if tier == "quick" else 8000
    for i in range(k):
        fam = gen.ALL[i % len(gen.ALL)]
        s = gen.spec(rng, [fam], 1, 70)
        s["explicit"] = bool(i % 7 == 6)
        gen.large(rng, i, 100, s)
        yield s


def lowest(h, A, B):
    """Longest path from the floor."""
    n = len(h)
    z = .5 * h.copy()
    sup = [[] for _ in range(n)]
    for a, b in zip(A, B):
        if a != b:
            sup[b].append(a)
    for b in range(n):
        for a in sup[b]:
            z[b] = max(z[b], z[a] + .5 * (h[a] + h[b]))
    return z


def run(case, mon):
    from fibermat import Mat, Net, Stack
    t, m, net, st = stacked(case)
    h = m.h.values
    tol = 1e-7 * max(1e-3, h.max())
    A, B = net.A.values, net.B.values
    z = lowest(h, A, B)
    mon.ev("heights", len(z))
    mon.near(m.z.values, z, tol, "fiber not at the lowest height allowed by its supports")
    up = (z > .5 * h + tol).sum()
    mon.ev("supported by a fiber", up)
    r = gen.rng_of(case, 10)
    # stacking again changes nothing
    z1 = m.z.values.copy()
    st2 = Stack(m, st)
    mon.near(m.z.values, z1, tol, "stacking a stacked set moves it")
    mon.ev("restacked")
    # other initial heights, weights and moduli with the same connections
    t2 = t.copy()
    t2.attrs = t.attrs
    k = int(r.integers(4))
    if k == 0:
        t2["z"] = r.normal(size=len(t)) * 100
    elif k == 1:
        t2["l"] = t2.l * r.uniform(.01, 100, len(t))
    elif k == 2:
        t2["b"] = t2.b * 10 ** r.uniform(-2, 2, len(t))
    else:
        t2["G"], t2["E"] = r.uniform(.1, 9, len(t)), r.uniform(.1, 9, len(t))
    m2 = Mat(t2)
    sol = Stack.solve(m2, net)
    mon.near(sol.x, z, tol, "heights depend on initial heights, lengths, widths or moduli", changed=k)
    mon.check(m2.equals(t2), "computing the heights modified the fibers")
    mon.ev("other weights")
    if up:
        mon.key(np.round(z / h.max(), 6).tobytes())
        mon.sample = {"fibers": len(z), "top": z.max(), "supported by fibers": int(up)}
