"""C44: a compaction resumed from its deformed mesh goes on as if it had not been interrupted."""
import numpy as np
from .. import gen
from ..solvemon import Run, cond1
from .c21 import path, at, stiff

ID = "C44"
RULE = ("one uninterrupted compaction per set and compactions in two to four parts: stopped at a step, at a target between steps or at a random intermediate time, the mesh deformed "
        "by the displacements reached (as the documentation does), and solved again; the distances stated for the deformed mesh are confronted with those of the run, and the "
        "parts put together with the uninterrupted run; non-trivial = new run resumed before its last step")
NEED = {"groups": 120, "resumed": 250, "stop:step": 50, "stop:time": 50, "stop:target": 50, "compared positions": 1500, "contacts closed after resuming": 200, "loaded when resumed": 100,
        "verbose or resampled parts": 30, "deformed meshes": 250}
ASSUMPTIONS = ["as C17", "systems with condition numbers below 1e10 (parts are compared up to the first one beyond)"]


def cases(rng, tier):
    k = 420 if tier == "quick" else 5000
    for i in range(k):
        s = gen.solve_spec(rng, 2, 26 if i % 10 else 60)
        s["opts"]["packing"] = gen.pick(rng, [1.5, 2., 4., 6.]) + .0917 * float(rng.random())
        s["opts"]["itermax"] = max(60, s["opts"]["itermax"])
        yield s


def run(case, mon):
    from fibermat import Mesh, stiffness, constraint
    r = gen.rng_of(case, 44)
    o = Run(case, record=True)
    mon.ev("groups")
    op, m, T = case["opts"], o.m, o.T
    if T < 2:
        return
    p = path(o)
    # first position beyond which systems leave no digits
    good, k = 1, 1.
    for c in o.calls[:T - 1]:
        x = cond1(c["A"])
        if not x < 1e10:
            break
        good, k = good + 1, max(k, x)
    if good < 2:
        mon.note("ill-conditioned run")
        return
    rel = min(1e-4, 1e-7 + 1e-14 * k)
    kk = np.abs(o.K.data[np.isfinite(o.K.data)])
    noise = 1e-13 * (kk.max() if len(kk) else 0.) * o.top
    K = {a: op[a] for a in ("lmin", "lmax", "coupling")}
    mesh = o.mesh.copy()
    N = o.N
    U, W, done, start = np.zeros(2 * N), 0., 1., None
    parts = []
    n = int(r.integers(2, 5))
    tried = 0
    for j in range(n):
        last = j == n - 1
        rest = op["packing"] / done
        kw, how = dict(packing=rest, itermax=op["itermax"]), "end"
        if not last:
            how = gen.pick(r, ["step", "time", "target"])
            if how == "step":
                kw["itermax"] = int(r.integers(1, max(2, T // 2)))
            if how == "target":
                kw["packing"] = 1 + float(r.uniform(.05, .9)) * (rest - 1)
        if r.random() < .2 and how != "time":
            # (between samples, resampled results are not those of the step)
            kw.update(verbose=True) if r.random() < .5 else kw.update(interp_size=int(r.integers(200, 400)))
            mon.ev("verbose or resampled parts")
        exact = "interp_size" not in kw
        z0 = mesh.z.values.copy()
        case2 = dict(case, opts=dict(op, **{a: b for a, b in kw.items() if a != "interp_size"}))
        out = gen.run_solve(case2, m, mesh, **({} if exact else {"interp_size": kw["interp_size"]}))
        Kj, Cj, u, f, F, H, Z, rl, mask, err = out
        mon.check(np.array_equal(mesh.z.values, z0), "the solver moves the mesh")
        t = np.unique(np.r_[rl.t, u.t])
        for a, b, name in ((o.K, Kj, "stiffness"), (o.C, Cj, "constraint matrix")):
            a, b = a.tocsr(), b.tocsr()
            d = (a != b)
            mon.check(d.nnz == 0 or np.array_equal(a.toarray(), b.toarray(), equal_nan=True), "the %s of the deformed mesh is another one" % name)
        q = (np.array([float(Z(x)) for x in t]), np.array([U + u(x) for x in t]), np.array([W + f(x)[2::3].sum() for x in t]))
        top = float((z0 + .5 * o.h).max())
        mon.near(q[0][0], top, 1e-9 * (1 + o.top), "the wall does not start on the highest fiber", part=j)
        mon.near(rl(1), q[0][0] / q[0][-1], 1e-9 * rl(1), "compaction of a part", part=j)
        if j and exact:
            mon.ev("contacts closed after resuming", len(t) - 2 if len(t) > 2 else 0)
            mon.ev("loaded when resumed", W > 0)
        # part of this run that is kept
        x = 1.
        if how == "time":
            x = float(r.uniform(.1, .95))
        parts.append((q, x, exact))
        # deformed mesh
        Zx = float(Z(x))
        g = mesh.copy()
        g.z += u(x)[::2]
        mon.check(Mesh.check(g), "the deformed mesh is refused")
        g = Mesh(g) if r.random() < .5 else g
        fl, gap, wall = o.clearances(g.z.values - o.z0, Zx)
        C2, f2, H2, df2, dH2 = constraint(m, g)
        h = np.array(H2, float)
        top = float((g.z.values + .5 * o.h).max())
        e = 1e-9 * (1 + o.top)
        mon.near(h, np.stack([fl, gap, wall + top - Zx], axis=1).ravel(), e, "distances of the deformed mesh", part=j)
        with np.errstate(invalid="ignore"):
            s = H(x) - Cj @ u(x)
        s[2::3] += top - Zx
        mon.near(h, s, e, "distances of the deformed mesh are not those at which the run stopped", part=j)
        touch = len(t) > 1 and x > 0
        mon.check(top <= Zx + o.tol + e and (top >= Zx - 2 * o.tol - e or not touch), "no fiber touches the wall", top=top, wall=Zx)
        mon.check(not np.any(f2) and not np.any(df2), "forces of a mesh at rest")
        mon.ev("deformed meshes")
        if not last:
            mon.ev("resumed"); mon.ev("stop:" + how)
            U, W = U + u(x), W + f(x)[2::3].sum()
            done *= q[0][0] / Zx
            mesh = g
            if op["packing"] / done <= 1 + 1e-9:
                break
            tried += 1
    # parts against the uninterrupted run
    end = p[0][good - 1]
    sc = max(np.abs(p[2][:good]).max(), 1e-300)
    S = stiff(p, *[q for q, x, ex in parts])
    tol = rel * o.top + (20 + 2 * T) * o.tol
    low = min(q[0][-1] for q, x, ex in parts)
    for j, (q, x, exact) in enumerate(parts):
        lo = max(end, q[0][-1], p[0][-1])
        z = np.unique(np.r_[p[0], q[0]])
        z = z[(z >= lo) & (z <= q[0][0])]
        if not len(z):
            continue
        (ua, wa), (ub, wb) = at(p, z), at(q, z)
        if exact:
            mon.near(ub[:, ::2], ua[:, ::2], tol, "a resumed compaction takes another path", part=j, stop=x)
            # (contacts detected within the tolerance change the force by stiffness x tolerance)
            mon.near(wb, wa, 10 * rel * sc + (20 + 2 * T) * o.tol * S + noise, "a resumed compaction meets another force", part=j)
        mon.ev("compared positions", len(z) if exact else 0)
    if good == T and k < 1e8 and tried:
        if p[0][-1] > low + 2 * tol or (len(parts) == n and parts[-1][0][0][-1] > p[0][-1] + 2 * tol):
            a, b = p[0][-1], parts[-1][0][0][-1]
            # (stopped by a singular system, a limit or the target)
            if max(cond1(c["A"]) for c in o.calls) < 1e8 and len(o.calls) < op["itermax"]:
                mon.check(abs(a - b) <= 2 * tol, "a resumed compaction ends elsewhere", uninterrupted=a, parts=b)
    mon.ev("same end", int(len(parts) == n and abs(parts[-1][0][0][-1] - p[0][-1]) <= 2 * tol))
    if tried:
        mon.key(np.round(p[0] / p[0][0], 6).tobytes(), n)
        mon.sample = {"steps": T - 1, "parts": len(parts), "wall": [float(q[0][-1]) for q, x, ex in parts][:4]}
