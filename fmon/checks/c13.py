"""C13: every network row becomes one node pair of the mesh, reciprocally linked."""
import collections
import numpy as np
import pandas as pd
from .. import gen
from .c04 import frame

ID = "C13"
RULE = ("networks and stacks (13 planar families and inclined ones, 1-45 fibers, thresholds, explicit pairs, shuffled rows, several "
        "connections per pair, coincident nodes); rows and linked node pairs are compared as multisets of exact values; non-trivial = new "
        "multiset with at least one connection")
NEED = {"rows": 10000, "linked pairs": 5000, "self-linked nodes": 2000, "coincident nodes": 50, "variant:shuffle": 20, "variant:multi": 20,
        "isolated fibers": 50}


def cases(rng, tier):
    k = 960 if tier == "quick" else 8000
    for i in range(k):
        fam = gen.ALL[i % len(gen.ALL)]
        s = gen.spec(rng, [fam], 1, 45)
        s["threshold"] = gen.pick(rng, [None, 0., .05 * s["length"], .2 * s["length"]])
        s["variant"] = gen.pick(rng, ["net", "stack", "stack", "shuffle", "multi"])
        gen.large(rng, i, 100, s)
        yield s


def network(case, mon=None):
    """A valid network (possibly shuffled, with several connections per pair)."""
    from fibermat import Net, Stack
    r = gen.rng_of(case, 13)
    m, net = gen.pipeline(case, "net")
    v = case["variant"]
    if v == "net":
        return m, net
    st = Stack(m, net, threshold=case.get("threshold"))
    t = frame(st)
    if v == "multi":
        c = t[(t.A != t.B).values]
        if len(c):
            d = c.iloc[r.integers(0, len(c), int(r.integers(1, 4)))].copy()
            for k in "AB":
                d["s" + k] = d["s" + k] * r.choice([.5, -.3, 1.])
                i = d[k].values
                for x, u in zip("xyz", "uvw"):
                    d[x + k] = m[x].values[i] + d["s" + k].values * m[u].values[i]
            a = t.attrs
            t = pd.concat([t, d], ignore_index=True).drop_duplicates(["A", "B", "sA", "sB"], ignore_index=True)
            t.attrs = a
    if v in ("shuffle", "multi"):
        a = t.attrs
        t = t.iloc[r.permutation(len(t))].reset_index(drop=True)
        t.attrs = a
        return m, Stack(t)
    return m, st


def run(case, mon):
    from fibermat import Mesh
    m, net = network(case)
    mesh = Mesh(net)
    mon.ev("variant:" + case["variant"])
    N = len(net)
    mon.ev("rows", N)
    mon.check(len(mesh) == 2 * N, "number of nodes", got=len(mesh), expected=2 * N)
    mon.check(list(mesh.index) == list(range(len(mesh))), "node labels")
    mon.check(dict(mesh.attrs) == dict(net.attrs), "attributes", got=mesh.attrs, expected=net.attrs)
    c = mesh.constraint.values
    mon.check(np.issubdtype(c.dtype, np.integer) and ((0 <= c) & (c < len(mesh))).all(), "link out of range")
    mon.check((c[c] == np.arange(len(c))).all(), "links are not reciprocal")
    D = [tuple(x) for x in mesh[["fiber", *"sxyz"]].values.astype(float).tolist()]
    f = mesh.fiber.values
    rows, got = collections.Counter(), collections.Counter()
    ends, gote = collections.Counter(), collections.Counter()
    for x in net[["A", "sA", "xA", "yA", "zA", "B", "sB", "xB", "yB", "zB"]].values.astype(float).tolist():
        a, b = tuple(x[:5]), tuple(x[5:])
        if a[0] == b[0]:
            ends[a] += 1
            ends[b] += 1
        else:
            rows[a, b] += 1
    for i in range(len(c)):
        j = c[i]
        if i == j:
            gote[D[i]] += 1
        elif f[i] < f[j]:
            got[D[i], D[j]] += 1
        elif f[i] == f[j]:
            mon.violate("two nodes of the same fiber are linked", nodes=(i, j))
    mon.ev("linked pairs", sum(got.values()))
    mon.ev("self-linked nodes", sum(gote.values()))
    mon.check(got == rows, "linked node pairs are not the connections of the network", lost=list((rows - got).items())[:2],
              invented=list((got - rows).items())[:2])
    mon.check(gote == ends, "unlinked nodes are not the end points", lost=list((ends - gote).items())[:2], invented=list((gote - ends).items())[:2])
    s = mesh.s.values
    mon.ev("coincident nodes", ((np.diff(f) == 0) & (np.abs(np.diff(s)) < 1e-12)).sum())
    mon.ev("isolated fibers", (np.bincount(f) == 2).sum() if len(f) else 0)
    if rows:
        mon.key(sorted(rows)[:50], len(rows))
        mon.sample = {"rows": N, "linked pairs": len(got), "variant": case["variant"]}
