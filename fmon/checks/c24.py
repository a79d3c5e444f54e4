"""C24: exported fibers fill the elliptic cylinder of the fiber."""
import numpy as np
from .. import gen

ID = "C24"
RULE = ("fiber sets of all families (in-plane, tilted, steep, exactly vertical, single, empty; equal and unequal sections) and single fibers with "
        "any non-normalised direction, exported at random resolutions with and without user callbacks; points, cells and labels compared with the "
        "cylinder of each fiber; non-trivial = distinct (family, resolutions, callback) and new fiber set")
NEED = {"sets": 60, "fibers": 700, "points": 100000, "single fibers": 200, "vertical fibers": 30, "callback calls": 200, "tilted fibers": 100,
        "non-default resolutions": 50}
ASSUMPTIONS = ["VTK's own cylinder and cell-size filters"]


def cases(rng, tier):
    k = 330 if tier == "quick" else 2500
    for i in range(k):
        s = gen.spec(rng, gen.PLANAR + gen.TILTED * 3, 0 if i % 10 == 0 else 1, 24)
        s["twins"] = i % 4 == 1
        s["vertical"] = i % 5 == 0
        s["res"] = [int(rng.integers(1, 4)), int(rng.integers(3, 14)), int(rng.integers(2, 25))] if i % 3 else None
        s["func"] = gen.pick(rng, ["none", "field", "move"])
        yield s


def body(mon, pts, xyz, l, b, h, c, d, res, **ctx):
    """One exported fiber against its elliptic cylinder."""
    d = np.asarray(d, float) / np.linalg.norm(d)
    c = np.asarray(c, float)
    size = np.abs(pts).max() + l
    e = 1e-9 * size
    rel = pts - c
    # frame from local coordinates
    loc = np.asarray(xyz)
    mon.check(len(pts) == (res[0] + 1) * (res[1] + 1) * res[2], "number of points", got=len(pts), resolution=res, **ctx)
    R = np.linalg.lstsq(loc / [l, b, h], rel, rcond=None)[0] / np.array([[l], [b], [h]])
    mon.near(loc @ R, rel, e, "local coordinates do not match the points", **ctx)
    er = 1e-9 * size / min(l, b, h)
    mon.near(R @ R.T, np.eye(3), er, "local frame is not orthonormal", **ctx)
    mon.near(R[0], d, er, "direction of the exported fiber", **ctx)
    mon.check(abs(R[1, 2]) <= er, "width is not horizontal", got=R[1], **ctx)
    if np.hypot(*d[:2]) > 1e-6:
        mon.check(R[2, 2] > 0 and abs(np.linalg.det(R) - 1) < 1e-3 + er, "frame is reversed", got=R, **ctx)
    # cylinder
    x, rho = loc[:, 0] / l, np.hypot(loc[:, 1] / b, loc[:, 2] / h) * 2
    t = rel @ d
    mon.check((np.abs(t) <= .5 * l + e).all() and (rho <= 1 + 1e-9).all(), "a point lies outside the fiber", length=np.abs(t).max(), radius=rho.max(), **ctx)
    mon.near([t.min(), t.max()], [-.5 * l, .5 * l], e, "the ends are not reached", **ctx)
    mon.near(np.unique(np.round(x, 6)), np.round(np.linspace(-.5, .5, res[2]), 6), 2e-6, "sections along the length", **ctx)
    k = np.unique(np.round(rho, 6))
    mon.near(k, np.linspace(0, 1, res[0] + 1), 2e-6, "radii from the axis to the surface", **ctx)
    ang = np.unique(np.round((np.arctan2(loc[:, 2] / h, loc[:, 1] / b) / (2 * np.pi))[rho > .5] % 1, 6) % 1)
    ang = np.unique(np.round(ang - ang.min(), 5) % 1)
    mon.near(ang, np.linspace(0, 1, res[1], endpoint=False), 3e-5, "points around the section", **ctx)


def polygon(m):
    return m / 2 * np.sin(2 * np.pi / m) / 4


def run(case, mon):
    from fibermat import Mat, vtk_fiber, vtk_mat
    r = gen.rng_of(case, 24)
    res = case["res"] or [1, 8, 20]
    kw = dict(zip(["r_resolution", "theta_resolution", "z_resolution"], case["res"])) if case["res"] else {}
    mon.ev("non-default resolutions", case["res"] is not None)
    # single fibers
    for _ in range(4):
        l, b, h = 10. ** r.uniform(-2, 2, 3)
        c, d = r.normal(0, 30, 3), r.normal(0, 1, 3) * 10. ** r.integers(-2, 3)
        if r.random() < .3:
            d = np.array(gen.pick(r, [[0., 0., 1.], [0., 0., -3.], [1., 0., 0.], [0., -2., 0.], [-1., 0., 0.]]), dtype=float)
        d = np.array(d, float).ravel()
        i = gen.pick(r, [0, 7])
        f = vtk_fiber(l, b, h, *c, *d, 2., 50., index=i, **kw)
        body(mon, np.array(f.points), np.array(f["xyz"]), l, b, h, c, d, res, single=True, direction=d)
        fields(mon, f.point_data, slice(None), i, [l, b, h], d, 2., 50.)
        mon.near(abs(f.volume), l * b * h * polygon(res[1]), 1e-6 * l * b * h, "volume of the exported fiber", direction=d)
        g = vtk_fiber(l, b, h, *c, *d, **kw)
        mon.near(np.array(g.points), np.array(f.points), 1e-12, "unlabelled fiber differs")
        mon.check(len(g.point_data) == 0, "fields on an unlabelled fiber", got=list(g.point_data))
        mon.ev("single fibers"); mon.ev("vertical fibers", not (d[0] or d[1]))
    # sets
    t = gen.table(case)
    if case["vertical"] and len(t):
        k = r.random(len(t)) < .4
        t.loc[k, ["u", "v", "w"]] = [0., 0., 1.]
        mon.ev("vertical fibers", k.sum())
    m = Mat(t)
    n = len(m)
    seen = []

    def func(msh, i):
        seen.append((i, int(msh["fiber"][0]), np.array(msh.points)))
        msh["mine"] = np.full(msh.n_points, 10. * i + 1)
        if case["func"] == "move":
            msh.points += [0., 0., 5. * i]
    before = m.copy()
    out = vtk_mat(m, verbose=False, **kw) if case["func"] == "none" else vtk_mat(m, func, verbose=False, **kw)
    mon.check(before.equals(m) and before.attrs == m.attrs, "the fiber set is modified")
    mon.ev("sets"); mon.ev("fibers", n); mon.ev("points", out.n_points if n else 0)
    if n == 0:
        mon.check(out.n_points == 0 and out.n_cells == 0 and not seen, "export of an empty set is not empty", got=out.n_points)
        return
    P = (res[0] + 1) * (res[1] + 1) * res[2]
    if not mon.check(out.n_points == n * P and out.n_cells == n * res[0] * res[1] * (res[2] - 1), "not one body per fiber",
                     points=[out.n_points, n * P], cells=[out.n_cells, n * res[0] * res[1] * (res[2] - 1)]):
        return
    lab = np.array(out["fiber"])
    mon.check(np.array_equal(lab, np.repeat(np.arange(n), P)), "fibers are not exported once each, in order")
    if case["func"] != "none":
        mon.check([s[:2] for s in seen] == [(i, i) for i in range(n)], "the callback does not see each fiber once, in order", got=[s[:2] for s in seen])
        mon.near(np.array(out["mine"]), 10. * lab + 1, 0, "fields added by the callback are lost")
        mon.ev("callback calls", len(seen))
    pts, xyz = np.array(out.points), np.array(out["xyz"])
    if case["func"] == "move":
        pts = pts - np.c_[0 * lab, 0 * lab, 5. * lab]
    vol = np.abs(np.array(out.compute_cell_sizes(length=False, area=False)["Volume"])).reshape(n, -1).sum(1)
    con = out.cells_dict if hasattr(out, "cells_dict") else {}
    for k, v in con.items():
        mon.check((lab[v] == lab[v][:, :1]).all(), "a cell joins two fibers")
    for i in range(n):
        f = t.iloc[i]
        s = slice(i * P, (i + 1) * P)
        d = f[["u", "v", "w"]].values.astype(float)
        body(mon, pts[s], xyz[s], f.l, f.b, f.h, f[["x", "y", "z"]].values.astype(float), d, res, fiber=i)
        fields(mon, out.point_data, s, i, [f.l, f.b, f.h], d, f.G, f.E)
        mon.ev("tilted fibers", abs(d[2]) > 1e-3)
    mon.near(vol, (t.l * t.b * t.h).values * polygon(res[1]), 1e-5 * (t.l * t.b * t.h).values + 1e-12, "volume of the exported fibers")
    mon.key(case["fam"], case["func"], res, n, np.round(pts[::17], 6).tobytes())
    mon.sample = {"fibers": n, "points": out.n_points, "volume": vol.sum(), "resolution": res}


def fields(mon, data, s, i, lbh, d, G, E):
    mon.check({"fiber", "lbh", "xyz", "uvw", "G", "E"} <= set(data.keys()), "documented fields are missing", got=list(data.keys()))
    mon.check((np.array(data["fiber"])[s] == i).all(), "fiber label")
    mon.check((np.array(data["lbh"])[s] == lbh).all(), "exported dimensions", expected=lbh)
    mon.near(np.array(data["uvw"])[s], np.broadcast_to(d, np.array(data["uvw"])[s].shape), 1e-12 * (1 + np.abs(d).max()), "exported direction")
    mon.check((np.array(data["G"])[s] == G).all() and (np.array(data["E"])[s] == E).all(), "exported moduli", expected=[G, E])
