"""C25: exported meshes carry the nodal fields."""
import contextlib
import io
import numpy as np
from .. import gen

ID = "C25"
RULE = ("stacked meshes of all in-plane families (of periodic networks or not, coincident nodes included) exported with random, rigid-tilt, cubic and solver-computed nodal "
        "fields, with and without rotations and moments, at random resolutions; each exported point compared with the beam shape of its own "
        "fiber; non-trivial = new mesh and distinct kind of fields")
NEED = {"meshes": 80, "points": 50000, "rigid tilts": 15, "cubic fields": 10, "random fields": 15, "solver fields": 8, "points near a node": 500,
        "coincident nodes": 20, "no fields": 5, "force only": 5, "isolated or single-node-pair fibers": 20, "verbose exports": 20, "meshes of periodic networks": 50, "several layers": 50}
ASSUMPTIONS = ["points closer than 1e-6 to coincident nodes and elements shorter than 1e-6 times the fiber are not judged",
               "fields at a point are those 0.01 % closer to the middle of the fiber (the code's own margin)"]


def cases(rng, tier):
    k = 800 if tier == "quick" else 4000
    for i in range(k):
        s = gen.spec(rng, gen.PLANAR, 1, 20 if i % 12 else 45, periodic=bool(rng.random() < .4))
        if i % 3 == 0:
            s["fam"] = gen.pick(rng, ["concurrent", "lattice"])
        s["kind"] = gen.pick(rng, ["random", "random", "tilt", "cubic", "none", "force", "solve"])
        if s["kind"] == "solve":
            s = gen.solve_spec(rng, 6, 18, kind="solve")
        s["rot"], s["mom"] = bool(rng.random() < .7), bool(rng.random() < .6)
        s["res"] = [int(gen.pick(rng, [1, 1, 2, 3])), int(rng.integers(3, 9)), int(gen.pick(rng, [2, 7, 20, 60]))] if i % 4 else None
        yield s


def hermite(s, u, d, x, k):
    """Cubic beam shape on element k and its first two derivatives."""
    L = s[k + 1] - s[k]
    t = (x - s[k]) / L
    a, b, p, q = u[k], u[k + 1], d[k] * L, d[k + 1] * L
    v = a * (1 + 2 * t) * (1 - t) ** 2 + p * t * (1 - t) ** 2 + b * t ** 2 * (3 - 2 * t) + q * t ** 2 * (t - 1)
    v1 = (a - b) * (6 * t ** 2 - 6 * t) + p * (3 * t ** 2 - 4 * t + 1) + q * (3 * t ** 2 - 2 * t)
    v2 = (a - b) * (12 * t - 6) + p * (6 * t - 4) + q * (6 * t - 2)
    return v, v1 / L, v2 / L ** 2


def run(case, mon):
    from fibermat import vtk_mat, vtk_mesh
    r = gen.rng_of(case, 25)
    m, net, st, mesh = gen.pipeline(case)
    mesh.attrs["periodic"] = False      # (images and cuts: C26)
    kw = dict(zip(["r_resolution", "theta_resolution", "z_resolution"], case["res"])) if case["res"] else {}
    N, n = len(mesh), len(m)
    s, f = mesh.s.values, mesh.fiber.values
    kind = case["kind"]
    disp = rot = force = mom = None
    h = m.h.max()
    a, b = r.normal(0, h, n), r.normal(0, .1, n)
    half = .5 * m.l.values[f]
    if kind == "random":
        disp, rot = r.normal(0, h, N), r.normal(0, .2, N)
        # coincident nodes carry the same values
        for i in np.flatnonzero((np.diff(f) == 0) & (np.diff(s) < 1e-6 * half[1:])):
            disp[i + 1], rot[i + 1] = disp[i], rot[i]
        if r.random() < .5:
            force, mom = r.normal(0, 1, N), r.normal(0, 1, N)
    elif kind == "tilt":
        disp, rot = a[f] + b[f] * s, b[f] + 0.
    elif kind == "cubic":
        c = r.normal(0, h, (n, 4))[f].T
        x = s / half
        disp = c[0] + c[1] * x + c[2] * x ** 2 + c[3] * x ** 3
        rot = (c[1] + 2 * c[2] * x + 3 * c[3] * x ** 2) / half
    elif kind == "force":
        force, mom = r.normal(0, 1, N), r.normal(0, 1, N)
    elif kind == "solve":
        K, C, u, fo, *_ = gen.run_solve(case, m, mesh)
        disp, rot = u(1).reshape(-1, 2).T
        force, mom = (fo(1) @ C).reshape(-1, 2).T
        mon.ev("solver fields", disp.any())
    if not case["rot"] and kind == "random":
        rot = None
    if not case["mom"]:
        mom = None
    arg = dict(displacement=disp, rotation=rot, force=force, moment=mom)
    loud = r.random() < .2
    with contextlib.redirect_stderr(io.StringIO()) if loud else contextlib.nullcontext():
        base = vtk_mat(m, verbose=loud, **kw)
        out = vtk_mesh(m, mesh, **arg, verbose=loud, **kw)
    mon.ev("verbose exports", loud); mon.ev("meshes of periodic networks", case["periodic"]); mon.ev("several layers", kw.get("r_resolution", 1) > 1)
    mon.ev("meshes"); mon.ev({"tilt": "rigid tilts", "cubic": "cubic fields", "random": "random fields", "none": "no fields", "force": "force only",
                              "solve": "solver runs"}[kind])
    if not mon.check(out.n_points == base.n_points and out.n_cells == base.n_cells, "exported mesh is not the exported set", got=[out.n_points, base.n_points]):
        return
    for k in ("fiber", "lbh", "xyz", "uvw", "G", "E"):
        mon.check(k in out.point_data and np.array_equal(np.array(out[k]), np.array(base[k])), "field %s of the set is changed or lost" % k)
    mon.check(all((k in out.point_data) == (disp is not None) for k in ("displacement", "rotation", "curvature")) and
              ("force" in out.point_data) == (force is not None), "fields do not match the arguments", got=list(out.point_data))
    pts, pts0, lab, x = np.array(out.points), np.array(base.points), np.array(out["fiber"]), np.array(out["xyz"])[:, 0] * .9999
    size = np.abs(pts0).max() + np.abs(pts).max()
    if disp is None:
        mon.near(pts, pts0, 1e-12 * size, "points move without displacement")
    else:
        D = np.array(out["displacement"])
        mon.check(D.shape == pts.shape and not D[:, :2].any(), "displacement is not vertical")
        mon.near(pts - pts0, D, 1e-9 * size, "points are not moved by the exported displacement")
    mon.ev("points", len(pts))
    for i in range(n):
        p = np.flatnonzero(lab == i)
        k = np.flatnonzero(f == i)
        si = s[k]
        L = m.l.values[i]
        mon.ev("isolated or single-node-pair fibers", len(k) == 2)
        mon.ev("coincident nodes", (np.diff(si) < 1e-9 * L).sum())
        xi = x[p]
        e = np.clip(np.searchsorted(si, xi) - 1, 0, len(si) - 2)
        near = np.abs(xi[:, None] - si).min(1)
        same = np.zeros(len(si), bool)
        same[:-1] |= np.diff(si) < 1e-6 * L
        same[1:] |= np.diff(si) < 1e-6 * L
        ok = (si[e + 1] - si[e] > 1e-6 * L) & ~((np.abs(xi[:, None] - si[same]).min(1) < 1e-6 * L) if same.any() else False)
        q, xo, eo = p[ok], xi[ok], e[ok]
        Le = (si[eo + 1] - si[eo])
        rounding = 1e-12 * (1 + s.max() * N / Le)
        for what, val, slo in (("displacement", disp, rot), ("force", force, mom)):
            if val is None:
                continue
            vi = val[k]
            di = slo[k] if slo is not None else 0 * vi
            v0, v1, v2 = hermite(si, vi, di, xo, eo)
            mag = np.abs(vi).max() + np.abs(di).max() * L
            got = np.array(out[what])[q]
            got = got[:, 2] if what == "displacement" else got
            mon.near(got, v0, 1e-8 * mag + rounding * mag, "exported %s is not that of the fiber" % what, fiber=i, kind=kind)
            # nodal values, within the distance to the node
            j = eo + (xo - si[eo] > si[eo + 1] - xo)
            mon.check((np.abs(got - vi[j]) <= (4 * mag / Le + 2 * np.abs(di).max()) * np.abs(xo - si[j]) * 1.01 + 1e-8 * mag).all(), "exported %s away from the nodal value" % what, fiber=i)
            mon.ev("points near a node", (near[ok] < .02 * Le).sum())
            if what == "displacement":
                mon.near(np.array(out["rotation"])[q], v1, (1e-7 + rounding) * (np.abs(v1).max(initial=0) + mag / Le), "exported rotation is not the slope", fiber=i, kind=kind)
                # (the curvature jumps at nodes)
                w = near[ok] > 1e-9 * L
                mon.near(np.array(out["curvature"])[q][w], v2[w], ((1e-6 + rounding) * (np.abs(v2).max(initial=0) + mag / Le ** 2))[w], "exported curvature", fiber=i, kind=kind)
                if kind == "tilt":
                    mon.near(got, a[i] + b[i] * xo, 1e-8 * mag, "a rigid tilt is not exported as linear", fiber=i)
                    mon.near(np.array(out["rotation"])[q], b[i] + 0 * xo, (1e-7 + rounding) * mag / Le, "rotation of a rigid tilt", fiber=i)
                if kind == "cubic":
                    cc = np.polyfit(si / (.5 * L), vi, 3) if len(np.unique(np.round(si / L, 4))) > 3 else None
                    if cc is not None and len(si) < 30:
                        mon.near(got, np.polyval(cc, xo / (.5 * L)), 1e-4 * mag, "a smooth field is distorted", fiber=i)
    mon.key(kind, case["rot"], case["mom"], n, N, np.round(s[:30], 5).tobytes())
    mon.sample = {"fibers": n, "nodes": N, "kind": kind, "points": len(pts), "resolution": case["res"]}
