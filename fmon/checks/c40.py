"""C40: supercells, distant copies and fibers that touch nothing do not change the compaction of a set."""
import numpy as np
import pandas as pd
from .. import gen, geom
from ..solvemon import cond1, Run
from .c21 import path, at, cond, stiff
from .c32 import Moved

ID = "C40"
RULE = ("whole pipelines run on a fiber set and on the 2x2 or 3x3 supercell of its periodic box, on two to four distant copies (not periodic), or with additional fibers that touch "
        "nothing; connections, heights, nodes and stiffness per copy, compaction path, displacements, contact forces and wall force (per copy) compared; non-trivial = new pair "
        "of runs with at least 2 steps")
NEED = {"pairs of runs": 70, "compared paths": 40, "compared positions": 300, "compared nodes": 4000, "kind:supercell": 20, "kind:copies": 15, "kind:bystanders": 15, "fibers 3x3": 5,
        "compared contact forces": 300, "bystanders": 20}
ASSUMPTIONS = ["sets where no two parallel fibers overlap and no two fibers cross at several places", "systems with condition numbers below 1e11"]


def cases(rng, tier):
    k = 1200 if tier == "quick" else 14000
    for i in range(k):
        kind = ["supercell", "copies", "bystanders", "supercell"][i % 4]
        m = 2 if kind == "supercell" and i % 12 else 3 if kind == "supercell" else int(rng.integers(2, 5))
        s = gen.solve_spec(rng, 2, {"supercell": 14 if m == 2 else 7, "copies": 12, "bystanders": 24}[kind])
        s["kind"], s["m"] = kind, m
        if kind != "bystanders":
            s["periodic"] = kind == "supercell"
        if s["periodic"]:
            s["length"] = round(min(s["length"], gen.pick(rng, [.45, .5, .8]) * s["size"]), 6)
        if s["threshold"] is not None and 0 < s["threshold"] < np.inf:
            s["threshold"] *= 1.0123
        s["opts"]["packing"] = gen.pick(rng, [1.2, 1.5, 2., 3.]) + .0917 * float(rng.random())
        s["hetero"] = bool(rng.random() < .7)
        yield s


def extend(t, case, r, elements):
    """Table, and for each of its fibers: fiber of t (-1: none) and number of the copy."""
    m, n, S = case["m"], len(t), t.attrs["size"]
    if case["kind"] == "supercell":
        sh = np.array([(i, j) for i in range(m) for j in range(m)], float) - .5 * (m - 1)
        size, sh = m * S, sh * S
    elif case["kind"] == "copies":
        D = 1.01 * (S + t.l.max())
        sh = np.c_[np.arange(m) - .5 * (m - 1), np.zeros(m)] * D
        if r.random() < .5:
            sh = sh[:, ::-1]
        size = m * D + S
    if case["kind"] == "bystanders":
        rows, base = t.values.copy(), np.arange(n)
        size = S if case["periodic"] else S + 4 * t.l.max()
        for _ in range(m):
            for _ in range(20):
                a = r.uniform(-np.pi, np.pi)
                lim = .5 * size
                x, y = r.uniform(-lim, lim, 2)
                # (elements as long as others; lower than any other fiber)
                row = np.array([gen.pick(r, elements), .1 * t.b.min(), t.h.min() * r.uniform(.1, .9), x, y, 0., np.cos(a), np.sin(a), 0., 10 ** r.uniform(-2, 2), gen.pick(r, [1., 10., 1e3, np.inf])])
                k = int(r.integers(0, len(rows) + 1))
                R = np.insert(rows, k, row, axis=0)
                q = frame(R, t, size)
                exp = geom.expected(q, case["periodic"])
                if all(v == "no" for (i, j), (v, _, _) in exp.items() if k in (i, j)):
                    rows, base = R, np.insert(base, k, -1)
                    break
        return frame(rows, t, size), base, np.zeros(len(rows), int)
    o = np.repeat(np.arange(n), len(sh))
    c = np.tile(np.arange(len(sh)), n)
    rows = t.values[o].copy()
    rows[:, 3:5] += sh[c]
    rows[:, 3:5] = np.clip(rows[:, 3:5], -.5 * size, .5 * size)
    return frame(rows, t, size), o, c


def frame(rows, t, size):
    f = pd.DataFrame(rows, columns=list(t.columns))
    f.attrs = {"n": len(f), "size": size}
    return f


def names(R, base, copy):
    """One name per node: its copy, its fiber and what it is connected to (fibers of the original set)."""
    out, ends = [], {}
    c, s = R.mesh.constraint.values, R.mesh.s.values
    for i in range(R.N):
        f, g = int(R.f[i]), int(R.f[c[i]])
        if c[i] == i:
            ends.setdefault(f, []).append((s[i], i))
            out.append(None)
        else:
            out.append((int(copy[f]), int(base[f]), int(base[g])))
    for f, e in ends.items():
        for k, (_, i) in enumerate(sorted(e)):
            out[i] = (int(copy[f]), int(base[f]), "end %d" % k)
    return out


def run(case, mon):
    r = gen.rng_of(case, 40)
    t = gen.table(case)
    per, kind = case["periodic"], case["kind"]
    exp = geom.expected(t, per)
    if any(v == "?" or len(yes) > 1 or amb for v, yes, amb in exp.values()):
        mon.note("degenerate crossings")
        return
    o = Run(case, record=True, errtol=np.inf)
    ds = np.diff(o.mesh.s.values)[np.diff(o.f) == 0]
    t2, base, copy = extend(t, case, r, np.sort(ds[ds > 0])[:: 3])
    v = Moved(dict(case), t2)
    mon.ev("kind:" + kind)
    mon.ev("pairs of runs")
    mon.ev("bystanders", (base < 0).sum())
    mon.ev("fibers 3x3", len(t2) if kind == "supercell" and case["m"] == 3 else 0)
    L, copies = max(t.l.max(), t.h.max()), int(copy.max()) + 1
    U = t[[*"uvw"]].values
    s2 = [float((np.cross(U[i], U[j]) ** 2).sum()) for i, j in exp if exp[i, j][0] == "yes"]
    e = case.get("m", 1) * L * min(1e-7, 1e-12 / max(min(s2, default=1.), 1e-12) + 1e-12)
    own = [np.flatnonzero((copy == k) & (base >= 0)) for k in range(copies)]
    for k in range(copies):
        mon.near(v.m.z.values[own[k]], o.m.z.values, 1e-6 * max(1, o.top), "stacked heights depend on other fibers (%s)" % kind, copy=k)
    a, b = names(o, np.arange(len(t)), np.zeros(len(t), int)), names(v, base, copy)
    if len(set(a)) < len(a):
        mon.note("pair connected twice")
        return
    want = sorted([(k, *x[1:]) for k in range(copies) for x in a], key=str)
    have = sorted([x for x in b if x[1] >= 0], key=str)
    if not mon.check(want == have, "connections depend on other fibers (%s)" % kind, lost=[x for x in want if x not in set(have)][:4], gained=[x for x in have if x not in set(want)][:4],
                     nodes=(len(a), len(b))):
        return
    mon.check(sum(x[1] < 0 for x in b) == 2 * (base < 0).sum() and not any(x[2] == -1 for x in b), "a fiber that crosses no other is connected")
    where = {x: i for i, x in enumerate(b)}
    near = ds
    p, q = path(o), path(v)
    cn = [cond1(x["A"]) for R in (o, v) for x in R.calls[:R.T - 1]]
    cnd = max(cn, default=1.)
    same = not (near <= 1e-5 * L).any()
    rel = min(1e-3, 1e-6 + 1e-14 * cnd + 2 * e / max(near.min(initial=L), 1e-300))
    ok = same and cnd < 1e11 and rel <= 1e-4
    if not ok:
        mon.note("nodes at the same place" if not same else "ill-conditioned run")
    K, W = o.K.tocsr(), v.K.tocsr()
    if ok and abs(p[0][-1] - q[0][-1]) > rel * o.top + 4 * o.tol:
        early = o if p[0][-1] > q[0][-1] else v
        if abs(early.rl(1) - case["opts"]["packing"]) < 1e-6:
            mon.note("target reached within rounding")
        elif early.calls and cond(early) >= 1e9:
            mon.note("singular system at the end")
        elif early.T - 1 >= case["opts"]["itermax"]:
            mon.note("number of steps limited")
        else:
            mon.violate("the run ends elsewhere with other fibers (%s)" % kind, base=p[0][-1], other=q[0][-1], steps=[o.T - 1, v.T - 1])
    end = max(p[0][-1], q[0][-1])
    z = np.unique(np.r_[p[0], q[0]])
    z = z[z >= end]
    kk = np.abs(o.K.data[np.isfinite(o.K.data)])
    noise = 1e-13 * (kk.max() if len(kk) else 0.) * o.top
    rb = {(b[i], b[j]): n for n, (i, j) in enumerate(zip(v.lo, v.hi))}
    F0 = np.array([o.fo(x) for x in o.u.t])
    F1 = np.array([v.fo(x).reshape(-1, 3) for x in v.u.t])
    rest = np.ones(len(v.lo), bool)
    for k in range(copies):
        m = np.array([where[(k, *x[1:])] for x in a], int)
        mon.near(v.mesh.s.values[m], o.mesh.s.values, e, "nodes moved along the fibers (%s)" % kind, copy=k)
        mon.near(v.mesh.z.values[m], o.mesh.z.values, 1e-6 * max(1, o.top), "heights of the nodes depend on other fibers (%s)" % kind, copy=k)
        mon.ev("compared nodes", o.N)
        if not ok:
            continue
        d = np.ravel([2 * m, 2 * m + 1], "F")
        A, B = K.toarray(), W[d][:, d].toarray()
        D = np.diag(A).copy()
        D = np.where(np.isfinite(D), D, 1.)
        rk = 1e-6 + 20 * e / max(near.min(initial=L), 1e-300)
        with np.errstate(invalid="ignore"):
            mon.near(np.where(np.isnan(B), np.inf, B), np.where(np.isnan(A), np.inf, A), rk * np.sqrt(np.abs(np.outer(D, D))) + rk * np.where(np.isfinite(A), np.abs(A), 0),
                     "stiffness depends on other fibers (%s)" % kind, copy=k)
        mon.check(W[d].nnz == W[d][:, d].nnz, "fibers are tied to other fibers in the stiffness (%s)" % kind)
        (ua, _), (ub, _) = at(p, z), at((q[0], q[1][:, d], q[2]), z)
        tol = rel * o.top + 4 * o.tol
        mon.near(ub[:, ::2], ua[:, ::2], tol, "displacements depend on other fibers (%s)" % kind, copy=k)
        ra = [(a[i], a[j]) for i, j in zip(o.lo, o.hi)]
        ra = [((k, *x[1:]), (k, *y[1:])) for x, y in ra]
        if per and kind == "supercell":
            # (the partner of a node may be in another copy)
            n = [int(np.flatnonzero((v.lo == m[i]) | (v.hi == m[i]))[0]) for i in o.lo]
            # seen from the lower fiber
            mon.check(all(v.lo[x] == m[i] for x, i in zip(n, o.lo)), "which of two fibers is below depends on other fibers", copy=k)
        else:
            if not mon.check(all(x in rb for x in ra), "which of two fibers is below depends on other fibers", copy=k):
                return
            n = [rb[x] for x in ra]
        rest[n] = False
        fa, fb = (p[0], F0, p[2]), (q[0], F1[:, n].reshape(len(F1), -1), q[2])
        (xa, _), (xb, _) = at(fa, z), at(fb, z)
        sc = max(np.abs(xa).max(initial=0), 1e-300)
        loc = 0.
        for Z, F, _ in (fa, fb):
            dz = -np.diff(Z)
            y = dz > 1e-9 * Z[0]
            loc = max(loc, np.abs(np.diff(F, axis=0)[y] / dz[y, None]).max(initial=0.))
        mon.near(xb, xa, 10 * rel * sc + 8 * o.tol * loc + noise, "contact forces depend on other fibers (%s)" % kind, copy=k)
        mon.ev("compared contact forces", (xa[0] != 0).sum())
    if not ok:
        return
    if rest.any():
        f = F1[:, rest]
        mon.check(kind == "bystanders" and not f.any(), "a fiber that touches nothing carries a load", largest=np.abs(f).max())
    wa, wb = at(p, z)[1], at(q, z)[1]
    sc = max(np.abs(wa).max(initial=0), 1e-300)
    mon.near(wb / copies, wa, 10 * rel * sc + 8 * o.tol * stiff(p, q) + noise, "wall force per copy depends on other fibers (%s)" % kind)
    mon.ev("compared paths")
    mon.ev("compared positions", len(z))
    if o.T > 2:
        mon.key(kind, case["m"], np.round(p[0] / o.hmax, 5).tobytes())
        mon.sample = {"kind": kind, "fibers": [len(o.m), len(v.m)], "steps": [o.T - 1, v.T - 1], "condition": cnd}
