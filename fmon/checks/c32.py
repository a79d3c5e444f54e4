"""C32: the simulated compaction does not depend on the in-plane frame nor on the sense of the fibers."""
import numpy as np
from .. import gen, geom
from ..solvemon import Run, cond1
from .c08 import transform
from .c21 import path, at, cond, stiff

ID = "C32"
RULE = ("whole pipelines run on a fiber set and on its image by mirrors, axis exchange, direction reversal, rigid motion (not periodic) or periodic "
        "shift with wrapping, one to three composed; stacked heights, nodes matched by fiber and contact, stiffness entries, compaction path, contact "
        "forces and exported heights compared; non-trivial = new pair of runs with at least 2 steps")
NEED = {"pairs of runs": 60, "compared paths": 40, "compared positions": 400, "compared nodes": 1500, "matrix entries": 5000, "op:wrap": 8, "op:rotate": 8,
        "op:reverse": 8, "op:swap": 8, "op:mirror": 8, "op:move": 5, "reversed fibers": 60, "compared contact forces": 200}
ASSUMPTIONS = ["sets where no two parallel fibers overlap and no two fibers cross at several places", "systems with condition numbers below 1e11",
               "thresholds equal to a distance are not compared"]


def cases(rng, tier):
    k = 900 if tier == "quick" else 3000
    for i in range(k):
        s = gen.solve_spec(rng, 2, 20 if i % 10 else 50)
        if s["periodic"]:
            s["length"] = round(min(s["length"], .5 * s["size"]), 6)
        ops = ["swap", "mirror", "reverse", "reverse"] + (["wrap", "wrap"] if s["periodic"] else ["rotate", "move"])
        s["ops"] = [gen.pick(rng, ops) for _ in range(int(rng.integers(1, 4)))]
        if s["threshold"] is not None and 0 < s["threshold"] < np.inf:
            s["threshold"] *= 1.0123
        s["opts"]["packing"] = gen.pick(rng, [1.2, 1.5, 2., 3.]) + .0917 * float(rng.random())
        s["hetero"] = bool(rng.random() < .7)
        yield s


class Moved(Run):
    """The same set in another frame."""

    def __init__(self, case, other, **kw):
        table = gen.table
        d = dict(case)
        gen.table = lambda x: other if x is d else table(x)
        try:
            super().__init__(d, record=True, errtol=np.inf, **kw)
        finally:
            gen.table = table


def names(R, sign):
    """One name per node: its fiber and what it is connected to."""
    out = []
    ends = {}
    c = R.mesh.constraint.values
    s = R.mesh.s.values
    for i in range(R.N):
        f, g = int(R.f[i]), int(R.f[c[i]])
        if c[i] == i:
            ends.setdefault(f, []).append((s[i] * sign[f], i))
            out.append(None)
        else:
            out.append((f, g))
    for f, e in ends.items():
        for k, (_, i) in enumerate(sorted(e)):
            out[i] = (f, "end", k)
    return out


def run(case, mon):
    t = gen.table(case)
    per = case["periodic"]
    r = gen.rng_of(case, 32)
    exp = geom.expected(t, per)
    if any(v == "?" or len(yes) > 1 or amb for v, yes, amb in exp.values()):
        mon.note("degenerate crossings")
        return
    t2, old, sign = transform(t, case["ops"], r)
    if not per:
        # (the box does not matter if not periodic)
        t2.attrs["size"] = 8 * t.attrs["size"]
    o, v = Run(case, record=True, errtol=np.inf), Moved(case, t2)
    for op in set(case["ops"]):
        mon.ev("op:" + op)
    mon.ev("pairs of runs")
    mon.ev("reversed fibers", (sign < 0).sum())
    L = max(t.l.max(), t.h.max())
    # accuracy of the abscissae: lines at small angles
    U = t[[*"uvw"]].values
    s2 = [float((np.cross(U[i], U[j]) ** 2).sum()) for i, j in exp if exp[i, j][0] == "yes"]
    e = L * min(1e-7, 1e-12 / max(min(s2, default=1.), 1e-12) + 1e-12)
    how = "+".join(case["ops"])
    mon.near(v.m.z.values, o.m.z.values, 1e-6 * max(1, o.top), "stacked heights depend on the frame", ops=how)
    a, b = names(o, np.ones(len(t))), names(v, sign)
    if len(set(a)) < len(a):
        mon.note("pair connected twice")
        return
    if not mon.check(set(a) == set(b) and len(a) == len(b), "connections depend on the frame", ops=how, lost=sorted(set(a) - set(b), key=str)[:4],
                     gained=sorted(set(b) - set(a), key=str)[:4]):
        return
    where = {x: i for i, x in enumerate(b)}
    m = np.array([where[x] for x in a], int)          # node of o -> node of v
    sg = sign[o.f]
    mon.near(v.mesh.s.values[m] * sg, o.mesh.s.values, e, "nodes moved along the fibers", ops=how)
    mon.near(v.mesh.z.values[m], o.mesh.z.values, 1e-6 * max(1, o.top), "heights of the nodes depend on the frame", ops=how)
    mon.ev("compared nodes", o.N)
    # (equal abscissae: the order of the nodes, hence which pairs are elements, is free)
    near = np.diff(o.mesh.s.values)[np.diff(o.f) == 0]
    if (near <= 1e-5 * L).any():
        mon.note("nodes at the same place")
        return
    # stiffness in the same unknowns
    d = np.ravel([2 * m, 2 * m + 1], "F")
    g = np.ones(2 * o.N)
    g[1::2] = sg
    K, W = o.K.toarray(), v.K.toarray()[np.ix_(d, d)]
    # (rotations change sign with the sense of the fiber)
    G = g[:, None] * g[None, :]
    with np.errstate(invalid="ignore"):
        W = W * G
        D = np.diag(K).copy()
        D[1::2] = np.where(np.isfinite(D[1::2]), D[1::2], D[::2] * L ** 2)
        # elements of very small length are differences of abscissae
        rel = 1e-6 + 20 * e / max(near.min(initial=L), 1e-300)
        mon.near(np.where(np.isnan(W), np.inf, np.abs(W)), np.where(np.isnan(K), np.inf, np.abs(K)), rel * np.sqrt(np.outer(D, D)) + rel * np.where(np.isfinite(K), np.abs(K), 0),
                 "stiffness depends on the frame", ops=how)
        ok = np.isfinite(K) & (np.abs(K) > 1e-6 * np.sqrt(np.outer(D, D)))
        mon.check((np.sign(W[ok]) == np.sign(K[ok])).all(), "sign of the coupling depends on the frame", ops=how)
    mon.ev("matrix entries", (K != 0).sum())
    cn = [cond1(x["A"]) for R in (o, v) for x in R.calls[:R.T - 1]]
    k = max(cn, default=1.)
    if not k < 1e11:
        mon.note("ill-conditioned run")
        return
    rel = min(1e-3, 1e-6 + 1e-14 * k + 2 * e / max(near.min(initial=L), 1e-300))
    if rel > 1e-4:
        mon.note("very short elements")
        return
    p, q = path(o), path(v)
    q = (q[0], (q[1][:, d] * g), q[2])
    if abs(p[0][-1] - q[0][-1]) > rel * o.top + 4 * o.tol:
        early = o if p[0][-1] > q[0][-1] else v
        if abs(early.rl(1) - case["opts"]["packing"]) < 1e-6:
            mon.note("target reached within rounding")
        elif early.calls and cond(early) >= 1e9:
            mon.note("singular system at the end")
        elif early.T - 1 >= case["opts"]["itermax"]:
            mon.note("number of steps limited")
        else:
            mon.violate("the run ends elsewhere in another frame", base=p[0][-1], other=q[0][-1], ops=how, steps=[o.T - 1, v.T - 1])
    end = max(p[0][-1], q[0][-1])
    z = np.unique(np.r_[p[0], q[0]])
    z = z[z >= end]
    (ua, wa), (ub, wb) = at(p, z), at(q, z)
    tol = rel * o.top + 4 * o.tol
    mon.near(ub[:, ::2], ua[:, ::2], tol, "displacements depend on the frame", ops=how)
    le = max(near.min(initial=L), 1e-300)
    big = np.abs(ua[:, 1::2]).max(initial=0)
    mon.near(ub[:, 1::2], ua[:, 1::2], 8 * tol / le + 10 * rel * big, "rotations depend on the frame or the sense of the fibers", ops=how)
    kk = np.abs(o.K.data[np.isfinite(o.K.data)])
    noise = 1e-13 * (kk.max() if len(kk) else 0.) * o.top
    sc = max(np.abs(wa).max(), 1e-300)
    mon.near(wb, wa, 10 * rel * sc + 8 * o.tol * stiff(p, q) + noise, "wall force depends on the frame", ops=how)
    # every contact force
    ra = [(a[i], a[j]) for i, j in zip(o.lo, o.hi)]
    rb = {(b[i], b[j]): n for n, (i, j) in enumerate(zip(v.lo, v.hi))}
    if mon.check(set(ra) == set(rb), "which of two fibers is below depends on the frame", ops=how):
        n = np.array([rb[x] for x in ra], int)
        fa = (p[0], np.array([o.fo(x) for x in o.u.t]), p[2])
        fb = (q[0], np.array([v.fo(x).reshape(-1, 3)[n].ravel() for x in v.u.t]), q[2])
        (xa, _), (xb, _) = at(fa, z), at(fb, z)
        sc = max(np.abs(xa).max(initial=0), 1e-300)
        loc = 0.
        for Z, F, _ in (fa, fb):
            dz = -np.diff(Z)
            y = dz > 1e-9 * Z[0]
            loc = max(loc, np.abs(np.diff(F, axis=0)[y] / dz[y, None]).max(initial=0.))
        mon.near(xb, xa, 10 * rel * sc + 8 * o.tol * loc + noise, "contact forces depend on the frame", ops=how)
        mon.ev("compared contact forces", (xa[0] != 0).sum())
    if o.T == v.T:
        mon.near(v.rl(o.rl.t), o.rl(o.rl.t), 1e-6 + 10 * rel, "compaction depends on the frame", ops=how)
    mon.ev("compared paths")
    mon.ev("compared positions", len(z))
    if o.T > 2:
        mon.key(how, np.round(p[0] / o.hmax, 5).tobytes())
        mon.sample = {"fibers": len(o.m), "ops": case["ops"], "steps": [o.T - 1, v.T - 1], "condition": k}
