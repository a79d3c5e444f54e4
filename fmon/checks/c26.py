"""C26: periodic exports show every image inside the window, and only those."""
import numpy as np
from scipy.spatial import cKDTree
from .. import gen

ID = "C26"
RULE = ("stacked meshes of all in-plane families (fibers across one edge, two edges or a corner of the box), periodic or not, with and without "
        "random or solver-computed fields; the exported window is compared vertex by vertex and by volume with the nine translated copies of the "
        "same fibers; non-trivial = new periodic mesh with cut fibers")
NEED = {"periodic exports": 40, "other exports": 8, "image vertices inside": 50000, "cut points": 500, "fibers across the edge": 50, "images seen": 500,
        "with fields": 15}
ASSUMPTIONS = ["fibers not longer than the box (so that nine images fill the window)", "VTK's clipping of tetrahedra"]


def cases(rng, tier):
    k = 500 if tier == "quick" else 1800
    for i in range(k):
        s = gen.spec(rng, ["edge", "uniform", "poly", "lattice", "dense", "clusters", "edge", "concurrent"], 1, 14, periodic=bool(i % 5))
        s["kind"] = gen.pick(rng, ["none", "random", "both", "tilt"])
        if i % 9 == 4:
            s = gen.solve_spec(rng, 4, 12, kind="solve", periodic=True)
        s["res"] = [1, int(rng.integers(3, 7)), int(rng.integers(2, 12))]
        yield s


def run(case, mon):
    from fibermat import vtk_mesh
    r = gen.rng_of(case, 26)
    m, net, st, mesh = gen.pipeline(case)
    N, n, X = len(mesh), len(m), m.attrs["size"]
    f, s = mesh.fiber.values, mesh.s.values
    kw = dict(zip(["r_resolution", "theta_resolution", "z_resolution"], case["res"]))
    h = m.h.max()
    arg = {}
    if case["kind"] in ("random", "both"):
        arg = dict(displacement=r.normal(0, h, N), rotation=r.normal(0, .05, N))
        for i in np.flatnonzero((np.diff(f) == 0) & (np.diff(s) < 1e-6 * X)):
            arg["displacement"][i + 1], arg["rotation"][i + 1] = arg["displacement"][i], arg["rotation"][i]
    if case["kind"] in ("random", "both") and r.random() < .4:
        # far above or below the initial mat
        up = float(gen.pick(r, [-30., -3., 3., 30.])) * X
        arg["displacement"] = arg["displacement"] + up
    if case["kind"] == "both":
        arg["force"] = r.normal(0, 1, N)
    if case["kind"] == "tilt":
        a, b = r.normal(0, h, n), r.normal(0, .1, n)
        arg = dict(displacement=a[f] + b[f] * s, rotation=b[f])
    if case["kind"] == "solve":
        K, C, u, fo, *_ = gen.run_solve(case, m, mesh)
        arg = dict(zip(["displacement", "rotation", "force", "moment"], [*u(1).reshape(-1, 2).T, *(fo(1) @ C).reshape(-1, 2).T]))
    once = mesh.copy()
    once.attrs = dict(mesh.attrs, periodic=False)
    base = vtk_mesh(m, once, **arg, verbose=False, **kw)
    out = vtk_mesh(m, mesh, **arg, verbose=False, **kw)
    pts = np.array(base.points)
    e = 1e-9 * (1 + np.abs(pts).max())
    names = sorted(base.point_data.keys())
    if not mon.check(sorted(out.point_data.keys()) == names, "fields of the periodic export", got=sorted(out.point_data.keys()), expected=names):
        return
    mon.ev("with fields", bool(arg))
    if not case["periodic"]:
        mon.ev("other exports")
        mon.check(out.n_points == base.n_points and out.n_cells == base.n_cells and np.array_equal(np.array(out.points), pts),
                  "a non-periodic export is cut or repeated", got=[out.n_points, base.n_points])
        return
    mon.ev("periodic exports")
    P = np.array(out.points)
    mon.check((np.abs(P[:, :2]) <= X + e).all(), "a point lies outside the window", worst=np.abs(P[:, :2]).max(), window=X)
    lab, labP = np.array(base["fiber"]), np.rint(np.array(out["fiber"])).astype(int)
    mon.check((np.abs(np.array(out["fiber"]) - labP) < 1e-6).all() and np.isin(labP, lab).all(), "labels of no fiber")
    # every image vertex inside the window is there, with its fields
    reach = np.abs(pts[:, :2]).max()
    data = {k: np.array(base[k], float).reshape(len(pts), -1) for k in names}
    dataP = {k: np.array(out[k], float).reshape(len(P), -1) for k in names}
    # vertices shared by touching fibers are merged by the clipping filter: their fields are those of either
    im = np.array([(i * X, j * X, 0) for i in (-1, 0, 1) for j in (-1, 0, 1)])
    allv = (pts[None] + im[:, None]).reshape(-1, 3)
    own = (np.arange(9)[:, None] * n + lab).ravel()
    atree = cKDTree(allv)
    pairs = atree.query_pairs(10 * e, output_type="ndarray")
    pairs = pairs[own[pairs[:, 0]] != own[pairs[:, 1]]]
    shared = np.zeros(len(allv), bool)
    shared[pairs.ravel()] = True
    shared = shared.reshape(9, -1)
    mon.ev("vertices shared by touching fibers", shared.sum())
    d, k = atree.query(P)
    sharedP = (d <= 10 * e) & shared.ravel()[k]
    tree = cKDTree(P)
    matched = np.zeros(len(P), bool)
    for i in (-1, 0, 1):
        for j in (-1, 0, 1):
            q = pts + [i * X, j * X, 0]
            ins = (np.abs(q[:, :2]) < X - 10 * e).all(1)
            mon.ev("images seen", len(np.unique(lab[ins])))
            mon.ev("image vertices inside", ins.sum())
            if not ins.any():
                continue
            d, k = tree.query(q[ins])
            if not mon.check((d <= 10 * e).all(), "part of a periodic image is missing", image=[i, j], fibers=np.unique(lab[ins][d > 10 * e]), distance=d.max()):
                continue
            near = tree.query_ball_point(q[ins], 10 * e)
            sh = shared[3 * (i + 1) + j + 1][ins]
            matched[np.concatenate([np.array(a, int) for a in near])] = True
            for name in names:
                v = data[name][ins]
                with np.errstate(invalid="ignore"):
                    sc = np.abs(v[np.isfinite(v)]).max(initial=0)
                    bad = ~((dataP[name][k] == v) | (np.abs(dataP[name][k] - v) <= 1e-9 * sc)).all(1) & ~sh
                if bad.any():
                    # several exported points may coincide: one of them has these values
                    still = [a for a in np.flatnonzero(bad) if not any(
                        ((dataP[name][c] == v[a]) | (np.abs(dataP[name][c] - v[a]) <= 1e-9 * sc)).all() for c in near[a])]
                    mon.check(not still, "field %s of a periodic image differs" % name, image=[i, j])
    # other points come from the cut, inside an image of their fiber
    used = np.zeros(len(P), bool)
    for c in out.cells_dict.values():
        used[c.ravel()] = True
        lo = np.where(sharedP[c], n, labP[c]).min(1)
        hi = np.where(sharedP[c], -1, labP[c]).max(1)
        mon.check((lo >= hi).all(), "a cell joins two fibers", fibers=np.unique(np.r_[lo[lo < hi], hi[lo < hi]]))
    rest = ~matched & used & ~sharedP
    w = np.flatnonzero(rest)
    t = m.iloc[labP[w]]
    dz = dataP["displacement"][w, 2] if "displacement" in dataP else 0.
    inside = np.zeros(len(w), bool)
    g = np.hypot(t.u.values, t.v.values)
    for o in im:
        dx, dy = P[w, 0] - o[0] - t.x.values, P[w, 1] - o[1] - t.y.values
        al, ac = (dx * t.u.values + dy * t.v.values) / g, (dx * t.v.values - dy * t.u.values) / g
        inside |= (np.abs(al) <= .5 * t.l.values + 10 * e) & (np.abs(ac) <= .5 * t.b.values + 10 * e)
    inside &= np.abs(P[w, 2] - t.z.values - dz) <= .55 * t.h.values + 10 * e
    mon.check(inside.all(), "a point belongs to no periodic image of its fiber", points=P[w][~inside][:5], fibers=np.unique(labP[w][~inside]))
    for name, v in (("lbh", t[["l", "b", "h"]].values), ("uvw", t[["u", "v", "w"]].values), ("G", t[["G"]].values), ("E", t[["E"]].values)):
        mon.near(dataP[name][w], v, 1e-9 * (1 + np.where(np.isfinite(v), np.abs(v), 0)), "field %s where the fiber is cut" % name)
    mon.ev("cut points", len(w))
    # volume of each fiber: four boxes in the window
    V0 = np.abs(np.array(base.compute_cell_sizes(length=False, area=False)["Volume"]))
    c0 = lab[first(base)]
    v0 = np.bincount(c0, V0, n)
    V1 = np.abs(np.array(out.compute_cell_sizes(length=False, area=False)["Volume"]))
    v1 = np.bincount(labP[first(out)], V1, n)
    # (usually within 1e-13; slivers where the window passes a vertex within VTK's tolerance reach 1e-4)
    mon.near(v1, 4 * v0, 1e-3 * v0.max(), "volume shown of a fiber is not that of four boxes")
    across = [(np.abs(pts[lab == i][:, :2]) > .5 * X).any() for i in range(n)]
    mon.ev("fibers across the edge", np.sum(across))
    if rest.any():
        mon.key(n, N, np.round(P[::29], 5).tobytes())
        mon.sample = {"fibers": n, "points": len(P), "cut points": len(w), "volume ratio": float(v1.sum() / v0.sum()), "reach": float(reach / X)}


def first(g):
    """First point of each cell."""
    return np.asarray(g.cell_connectivity)[np.asarray(g.offset)[:-1]]
