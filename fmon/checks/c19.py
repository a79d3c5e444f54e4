"""C19: complementarity, compressive forces, and the press only pushes."""
import numpy as np
from .. import gen
from ..solvemon import Run

ID = "C19"
RULE = ("solver runs as in C17 (full histories); at every stored step and random times each contact, floor and wall force is confronted with "
        "the clearance recomputed from the tables; a third of the runs has all rotations locked, where the discrete maximum principle makes "
        "every sign strict; non-trivial = new history with forces on closed contacts and open contacts left")
NEED = {"runs": 150, "times with force": 500, "loaded conditions": 5000, "open conditions": 20000, "rotation-free runs": 50, "wall force increments": 500,
        "displaced nodes": 5000, "resampled times": 2000}
ASSUMPTIONS = ["as C17", "two documented sign constraints are broken on the unchanged tree by mechanisms listed in known_findings.json; "
               "deviations by any other mechanism are violations"]
TENSILE, UPLIFT = "C19-tensile-closed-contact", "C19-lever-uplift"


def cases(rng, tier):
    k = 1600 if tier == "quick" else 6000
    for i in range(k):
        s = gen.solve_spec(rng, 1, 26 if i % 10 else 60)
        if i % 3 == 0:
            s["moduli"] = "inf"
        if i % 2 == 0:
            s["interp_size"] = gen.pick(rng, [200, 500, 1000])
        yield s


def run(case, mon):
    o = Run(case)
    r = gen.rng_of(case, 19)
    mon.ev("runs")
    free = bool(np.isinf(o.m.E).all())         # rotations locked everywhere
    mon.ev("rotation-free runs", free)
    t = np.sort(np.r_[o.u.t, r.random(6)])
    U = np.array([o.u(x) for x in t])[:, ::2]
    Z = np.array([float(o.Z(x)) for x in t])
    f = np.array([o.fo(x) for x in t])
    if not mon.check(np.isfinite(U).all() and np.isfinite(f).all(), "undefined displacements or forces"):
        return
    fl, gap, wall = o.clearances(U, Z)
    c = np.stack([fl, gap, wall], axis=2).reshape(len(t), -1)
    big = max(np.abs(f).max(), 1e-300)
    k = np.abs(o.K.data[np.isfinite(o.K.data)])
    noise = 1e-13 * (k.max() if len(k) else 0.) * o.top
    eps = 1e-7 * big + noise
    tol = o.tol + 1e-8 * (1 + o.top)
    closed = c <= tol
    kind = np.tile(["floor", "contact", "wall"], len(o.lo))
    # complementarity
    bad = (np.abs(f) > eps) & ~closed
    if not mon.check(not bad.any(), "force across an open contact"):
        i, j = np.argwhere(bad)[0]
        mon.violate("force across an open %s" % kind[j], at=t[i], row=j, force=f[i, j], clearance=c[i, j], largest=big)
    mon.check(not np.any(f[:, 1::3][:, o.end]), "force between a fiber end and itself")
    mon.ev("loaded conditions", (np.abs(f) > eps).sum()); mon.ev("open conditions", (~closed).sum())
    mon.ev("times with force", (np.abs(f).max(1) > 0).sum())
    # signs: a closed contact held together is the only known way to a tensile force
    neg = f < -eps
    if neg.any():
        ok = closed & neg
        # closed when it became tensile and ever since
        first = np.argmax(neg, axis=0)
        for j in np.flatnonzero(neg.any(0)):
            held = closed[first[j]:, j].all()
            strict = free and kind[j] != "contact"
            if held and ok[neg[:, j], j].all() and not strict:
                mon.known_finding(TENSILE, "tensile %s force" % kind[j])
            else:
                mon.violate("tensile %s force" % kind[j], force=f[:, j].min(), largest=big, rotations_locked=free, row=j)
    # the press only pushes, ever harder
    w, g = f[:, 2::3].sum(1), f[:, ::3].sum(1)
    s = (1e-6 * big + noise) * np.sqrt(o.N)
    mon.check((w >= -s).all() and (g >= -s).all(), "the press or the floor pulls", wall=w.min(), floor=g.min())
    mon.check((np.diff(w) >= -s).all(), "the wall force decreases", worst=np.diff(w).min() if len(w) > 1 else None, total=w.max())
    mon.ev("wall force increments", (np.diff(w) > 0).sum())
    # no node above its initial position, none faster than the wall
    up = U.max() if U.size else 0
    if up > tol:
        if free:
            mon.violate("a node rises", by=up, at=t[np.argwhere(U == up)[0][0]])
        else:
            mon.known_finding(UPLIFT, "a node rises")
    if free:
        tt = 1e-7 * o.top
        mon.check((U >= -(Z[0] - Z)[:, None] - tt).all(), "a node goes down further than the wall", worst=(U + (Z[0] - Z)[:, None]).min())
        mon.check((np.diff(U, axis=0) <= tt).all(), "a node rises during compaction", worst=np.diff(U, axis=0).max() if len(t) > 1 else 0)
        mon.check((np.diff(f[:, ::3], axis=0) >= -s).all() and (np.diff(f[:, 2::3], axis=0) >= -s).all(), "a floor or wall force decreases")
    size = case.get("interp_size")
    if size and o.T > 2:
        # the same run resampled: forces keep their signs and the press pushes ever harder between the resampled times as well
        h = Run(case, interp_size=size)
        tr = np.sort(np.r_[r.random(40), (np.arange(size)[r.integers(0, size, 5)]) / (size - 1)])
        fr = np.array([h.fo(x) for x in tr])
        lo = np.minimum(f.min(0), 0) - eps
        hi = np.maximum(f.max(0), 0) + eps
        mon.check((fr >= lo).all(), "a resampled force pulls where the run has none", worst=(fr - lo).min(), largest=big)
        mon.check((fr <= hi).all(), "a resampled force exceeds the largest of the run", worst=(fr - hi).max(), largest=big)
        mon.check((np.diff(fr[:, 2::3].sum(1)) >= -s).all(), "the resampled wall force decreases")
        never = ~closed.any(0)
        mon.check(not (np.abs(fr[:, never]) > eps).any(), "a resampled force on a contact that never closes")
        mon.ev("resampled times", len(tr))
    mon.ev("displaced nodes", (U[-1] < -tol).sum())
    if o.T > 2 and np.abs(f).max() > 0 and (~closed[-1] & np.isfinite(c[-1])).any():
        mon.key(np.round(f[-1] / big, 4).tobytes())
        mon.sample = {"fibers": len(o.m), "steps": o.T - 1, "rotations locked": free, "closed": int(closed[-1].sum()), "tensile": int(neg[-1].sum()),
                      "wall force": float(w[-1]), "largest rise": float(up)}
