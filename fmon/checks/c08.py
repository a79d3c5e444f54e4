"""C08: the network is invariant under relabelling, axis changes, reversal, motion, periodic shift."""
import numpy as np
import pandas as pd
from .. import gen, geom

ID = "C08"
RULE = ("fiber sets (15 families) built twice: original and transformed by relabelling, axis exchange, mirror, direction reversal, "
        "rigid motion (non-periodic) or periodic shift with wrapping (periodic), also composed; connected pairs are compared after "
        "undoing the relabelling, abscissae for direct crossings; non-trivial = new connected-pair set with at least one crossing")
NEED = {"transformed networks": 150, "compared pairs": 5000, "compared abscissae": 300, "op:wrap": 10, "op:relabel": 10, "op:rotate": 10,
        "op:reverse": 10, "op:swap": 10, "op:mirror": 10}
ASSUMPTIONS = ["degenerate crossings are not compared", "fiber length <= box size for periodic networks"]


def cases(rng, tier):
    k = 960 if tier == "quick" else 8000
    for i in range(k):
        per = bool(i % 2)
        s = gen.spec(rng, gen.PLANAR if per else gen.PLANAR + gen.TILTED, 2, 36 if not per else 26, periodic=per)
        ops = ["relabel", "swap", "mirror", "reverse"] + (["wrap", "wrap"] if per else ["rotate", "move"])
        s["ops"] = [gen.pick(rng, ops) for _ in range(int(rng.integers(1, 4)))]
        yield s


def transform(t, ops, r):
    """Transformed table, label map new->old, sign of each (new) fiber direction."""
    t = t.copy()
    n, size = len(t), t.attrs["size"]
    old, sign = np.arange(n), np.ones(n)
    for op in ops:
        if op == "relabel":
            p = r.permutation(n)
            t, old, sign = t.iloc[p].reset_index(drop=True), old[p], sign[p]
        elif op == "swap":
            t[["x", "y"]], t[["u", "v"]] = t[["y", "x"]].values, t[["v", "u"]].values
        elif op == "mirror":
            k, d = ("x", "u") if r.random() < .5 else ("y", "v")
            t[k], t[d] = -t[k], -t[d]
        elif op == "reverse":
            s = r.choice([-1., 1.], n)
            t[["u", "v", "w"]] = t[["u", "v", "w"]].values * s[:, None]
            sign = sign * s
        elif op == "rotate":
            a = r.uniform(0, 2 * np.pi)
            R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
            t[["x", "y"]] = t[["x", "y"]].values @ R.T
            t[["u", "v"]] = t[["u", "v"]].values @ R.T
        elif op == "move":
            t[["x", "y"]] = t[["x", "y"]].values + r.uniform(-.5, .5, 2) * size
            t["z"] = t["z"] + r.normal() * size
        elif op == "wrap":
            xy = t[["x", "y"]].values + r.uniform(-1, 1, 2) * size
            xy = (xy + .5 * size) % size - .5 * size
            t[["x", "y"]] = np.clip(xy, -.5 * size, .5 * size)
    t.attrs = {"n": n, "size": size}
    return t, old, sign


def run(case, mon):
    from fibermat import Mat, Net
    t = gen.table(case)
    per = case["periodic"]
    r = gen.rng_of(case, 8)
    t2, old, sign = transform(t, case["ops"], r)
    if not per:
        # a non-periodic network does not depend on the box
        t2.attrs["size"] = 8 * t.attrs["size"]
    a = Net(Mat(t), periodic=per)
    b = Net(Mat(t2), periodic=per)
    mon.ev("transformed networks")
    for o in set(case["ops"]):
        mon.ev("op:" + o)
    exp = geom.expected(t, per)
    amb = {k for k, e in exp.items() if e[0] == "?"}
    A = {(i, j): (s, q) for i, j, s, q in zip(a.A, a.B, a.sA, a.sB) if i != j}
    Bp = {}
    for i, j, s, q in zip(b.A, b.B, b.sA, b.sB):
        if i == j:
            continue
        oi, oj, s, q = int(old[i]), int(old[j]), s * sign[i], q * sign[j]
        if oi > oj:
            oi, oj, s, q = oj, oi, q, s
        mon.check((oi, oj) not in Bp, "pair connected twice", pair=(oi, oj))
        Bp[oi, oj] = (s, q)
    mon.ev("compared pairs", len(exp) - len(amb))
    da, db = set(A) - set(Bp) - amb, set(Bp) - set(A) - amb
    mon.check(not da and not db, "connections changed by %s" % "+".join(case["ops"]), lost=sorted(da)[:4], gained=sorted(db)[:4])
    L = t.l.max()
    arr = geom.arrays(t)
    for k in set(A) & set(Bp):
        v, yes, am = exp[k]
        if v != "yes" or len(yes) != 1 or am:
            continue
        mon.ev("compared abscissae")
        s2 = geom.approach(arr, *k)[2]
        if s2 < 1e-6:
            continue
        mon.near(Bp[k], A[k], 1e-7 * L, "abscissae changed by %s" % "+".join(case["ops"]), pair=k)
    if A:
        mon.key(sorted(A), case["ops"])
        mon.sample = {"ops": case["ops"], "connections": len(A), "periodic": per}
