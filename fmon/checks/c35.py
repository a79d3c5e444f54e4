"""C35: an export written to a file and read back is the same."""
import os
import numpy as np
from .. import env, gen

ID = "C35"
RULE = ("fibers, sets and meshes (13 families, moduli finite or infinite, periodic or not, with or without fields, with user fields) exported, written "
        "in the legacy and XML formats of VTK and read back; points, cells, cell types and every field compared bit by bit; non-trivial = new export "
        "with at least one cell")
NEED = {"files": 150, "fields": 1000, "points": 20000, "kind:fiber": 20, "kind:mat": 20, "kind:mesh": 20, "kind:periodic": 20, "kind:fields": 20, "infinite moduli": 20, "uniform fields": 20}
ASSUMPTIONS = ["binary files"]


def cases(rng, tier):
    k = 500 if tier == "quick" else 2500
    for i in range(k):
        s = gen.spec(rng, gen.ALL, 1, 12)
        s["kind"] = ["fiber", "mat", "mesh", "periodic", "fields"][i % 5]
        if s["kind"] in ("mesh", "periodic", "fields"):
            s["fam"] = gen.pick(rng, gen.PLANAR)
            s["periodic"] = s["kind"] == "periodic" or bool(s["kind"] == "fields" and rng.random() < .5)
            if s["periodic"]:
                s["length"] = min(s["length"], s["size"])
        s["format"] = gen.pick(rng, [".vtk", ".vtu"])
        s["res"] = gen.pick(rng, [None, None, 1, 2])
        yield s


def run(case, mon):
    import pyvista as pv
    from fibermat import vtk_fiber, vtk_mat, vtk_mesh
    r = gen.rng_of(case, 35)
    kind = case["kind"]
    if kind in ("fiber", "mat"):
        m = gen.mat(case)
    else:
        m, net, st, mesh = gen.pipeline(case)
    kw = {} if case["res"] is None else {"r_resolution": case["res"], "theta_resolution": 4 + case["res"]}
    # (fields every export has)
    want = {"fiber", "lbh", "xyz", "uvw", "G", "E"}
    if kind == "fiber":
        x = m.iloc[0]
        want = set()
        msh = vtk_fiber(*x[[*"lbhxyzuvwGE"]].values.astype(float), **kw)
    elif kind == "mat":
        def func(g, i):
            g["mine"] = np.full(g.n_points, 1.5 * i)
        user = r.random() < .5
        if user:
            want.add("mine")
        msh = vtk_mat(m, func if user else None, verbose=False, **kw)
    elif kind == "fields":
        # any combination of fields, constant ones and zeros included
        v = r.normal(size=(4, len(mesh))) * .1 * m.h.min()
        for a in v:
            w = r.random()
            a[:] = 0 if w < .2 else a[0] if w < .4 else np.where(r.random(len(a)) < .5, 0, a) if w < .5 else a
        u, t, f, c = [None if r.random() < .3 else a for a in v]
        msh = vtk_mesh(m, mesh, u, t, f, c, verbose=False, **kw)
        if u is not None:
            want |= {"displacement", "rotation", "curvature"}
        if f is not None:
            want.add("force")
        mon.ev("uniform fields", sum(a is not None and len(set(a)) == 1 for a in (u, t, f, c)))
    else:
        msh = vtk_mesh(m, mesh, verbose=False, **kw)
    mon.ev("kind:" + kind)
    mon.ev("infinite moduli", np.isinf(m.E).any())
    missing = want - set(msh.point_data.keys())
    mon.check(not missing, "fields are missing", missing=sorted(missing), got=list(msh.point_data.keys()))
    for k in msh.point_data.keys():
        v = np.asarray(msh.point_data[k])
        mon.check(v.dtype.kind in "fiu" and len(v) == msh.n_points, "a field is not one real number (or vector) per point", field=k, type=str(v.dtype))
        if k in want - {"mine"}:
            shape = (msh.n_points, 3) if k in ("lbh", "xyz", "uvw", "displacement") else (msh.n_points,)
            mon.check(v.shape == shape, "shape of a field", field=k, got=v.shape, expected=shape)
    if kind != "fiber" and msh.n_points and {"fiber", "G", "E"} <= set(msh.point_data.keys()):
        i = np.clip(np.rint(np.asarray(msh["fiber"], float)).astype(int), 0, len(m) - 1)
        for k in "GE":
            x, y = m[k].values[i], np.asarray(msh[k], float)
            with np.errstate(invalid="ignore"):
                ok = (x == y) | (np.abs(x - y) <= 1e-6 * np.abs(x)) & np.isfinite(x)
            mon.check(ok.all(), "a modulus in the export is not the one of the fiber", field=k, got=y[~ok][:3], expected=x[~ok][:3])
    f = os.path.join(env.scratch(), "export%d%s" % (os.getpid(), case["format"]))
    try:
        g = msh if isinstance(msh, pv.UnstructuredGrid) or case["format"] == ".vtk" else msh.cast_to_unstructured_grid()
        g.save(f)
        b = pv.read(f)
        mon.ev("files")
        if mon.check(type(b) is type(g) and b.n_points == g.n_points and b.n_cells == g.n_cells, "another kind or size read back",
                     got=[str(type(b)), b.n_points, b.n_cells], expected=[str(type(g)), g.n_points, g.n_cells]):
            mon.check(np.array_equal(np.asarray(b.points), np.asarray(g.points)), "points changed by the file")
            mon.ev("points", g.n_points)
            if isinstance(g, pv.UnstructuredGrid):
                mon.check(np.array_equal(b.cells, g.cells) and np.array_equal(b.celltypes, g.celltypes), "cells changed by the file")
            for name in ("point_data", "cell_data"):
                x, y = getattr(g, name), getattr(b, name)
                mon.check(set(y.keys()) == set(x.keys()), "fields lost in the file", got=list(y.keys()), expected=list(x.keys()))
                for k in set(x.keys()) & set(y.keys()):
                    p, q = np.asarray(x[k]), np.asarray(y[k])
                    mon.check(p.shape == q.shape and p.dtype.kind == q.dtype.kind and np.array_equal(p, q, equal_nan=p.dtype.kind == "f"), "a field changed by the file", field=k)
                    mon.ev("fields")
    finally:
        if os.path.exists(f):
            os.unlink(f)
    if msh.n_cells:
        mon.key(kind, case["format"], np.asarray(msh.points).tobytes())
        mon.sample = {"kind": kind, "cells": msh.n_cells, "fields": list(msh.point_data.keys())}
