"""C29: empty, omitted, one-fiber and unconnected inputs go through every stage; attributes are carried along."""
import itertools
import numpy as np
import pandas as pd
from .. import gen

ID = "C29"
RULE = ("every stage called with omitted, None and empty arguments in all combinations of options, and one-fiber, isolated, parallel, "
        "end-to-end and partly connected sets through the whole pipeline (network, stack, mesh, matrices, solver, three exports, Settings values); "
        "attributes compared at each stage with those of the original call; non-trivial = new combination of family, size and options")
NEED = {"empty calls": 800, "one-fiber pipelines": 20, "unconnected pipelines": 40, "connected pipelines": 12, "solver runs": 100,
        "exports": 150, "attributes": 1000, "resumed from tables": 50, "omitted networks": 100}
ASSUMPTIONS = ["the compaction itself needs at least one fiber"]

MATC = [*"lbhxyzuvwGE"]
NETC = ["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"]
MESHC = ["fiber", "s", "x", "y", "z", "beam", "constraint"]


def cases(rng, tier):
    k = 8 if tier == "quick" else 40
    for i in range(k):
        yield {"what": "empty", "seed": int(rng.integers(2 ** 31)), "size": gen.pick(rng, [50., 1., 7.5, 1e3, 1e-3])}
    k = 336 if tier == "quick" else 4000
    for i in range(k):
        what = ["one", "apart", "parallel", "aligned", "part", "part"][i % 6]
        s = gen.solve_spec(rng, 2, 9, what=what)
        if what == "one":
            s["n"] = 1
        if what == "part":
            s["fam"] = gen.pick(rng, ["sparse", "clusters", "poly", "needles"])
        yield s


def table_of(case):
    df = gen.table(case)
    n, X, r = len(df), df.attrs["size"], gen.rng_of(case, 29)
    what = case["what"]
    if what in ("apart", "parallel", "aligned"):
        L = case["length"] * .9
        df["l"] = L
    if what == "apart":
        # too short to touch
        c = (np.arange(n) + .5) / n * X - .5 * X
        df["x"], df["y"], df["l"] = c, r.permutation(c), .4 * X / n
    elif what == "parallel":
        p = gen.pick(r, [0., np.pi / 2, .3, -.7])
        df["u"], df["v"], df["w"] = np.cos(p), np.sin(p), 0.
        e = (np.arange(n) - .5 * (n - 1)) * .02 * X
        df["x"], df["y"] = -np.sin(p) * e, np.cos(p) * e
    elif what == "aligned":
        # end to end, without touching
        df["u"], df["v"], df["w"] = 1., 0., 0.
        df["y"], df["l"] = 0., X / n * .9
        df["x"] = (np.arange(n) + .5) / n * X - .5 * X
    return df


def carried(mon, o, n, size, periodic=None, what=""):
    mon.ev("attributes")
    good = o.attrs.get("n") == n and o.attrs.get("size") == size and (periodic is None or o.attrs.get("periodic") is periodic)
    mon.check(good, "attributes of the %s" % what, got=dict(o.attrs), expected=[n, size, periodic])


def is_empty(mon, o, cls, cols, what):
    mon.ev("empty calls")
    ok = mon.check(type(o) is cls, "type of %s" % what, got=type(o).__name__)
    ok &= mon.check(len(o) == 0, "%s is not empty" % what, rows=len(o))
    ok &= mon.check(set(cols) <= set(o.columns), "columns missing from %s" % what, got=list(o.columns))
    mon.check(cls.check(o) is True, "%s is rejected by its own check" % what)
    return ok


def run(case, mon):
    import fibermat as fm
    if case["what"] == "empty":
        return run_empty(case, mon, fm)
    df = table_of(case)
    n, X = len(df), float(df.attrs["size"])
    per = bool(case["periodic"])
    m = fm.Mat(df)
    carried(mon, m, n, X, what="mat")
    net = fm.Net(m, periodic=per)
    carried(mon, net, n, X, per, "network")
    # every fiber keeps its end points
    ends = net[net.A == net.B]
    mon.check(sorted(ends.A) == list(range(n)), "not one end-point pair for each fiber", got=ends.A.tolist())
    lone = len(net) == n
    if case["what"] in ("one", "apart", "parallel", "aligned") and (not per or case["what"] == "one"):
        mon.check(lone, "connections between fibers that do not touch", got=net[["A", "B"]].values)
    st = fm.Stack(m, net, threshold=case.get("threshold"))
    carried(mon, st, n, X, per, "stack")
    mon.check(isinstance(st, fm.Stack) and isinstance(st, fm.Net), "type of the stack")
    # an omitted network is the default one
    a, b = fm.Mat(m.copy()), fm.Mat(m.copy())
    s1, s2 = fm.Stack(a), fm.Stack(b, fm.Net(b))
    mon.ev("omitted networks")
    mon.check(s1.equals(s2) and dict(s1.attrs) == dict(s2.attrs) == {"n": n, "size": X, "periodic": True} and a.equals(b),
              "stacking without network differs from stacking with the default network", rows=[len(s1), len(s2)], attrs=s1.attrs)
    d1, d2 = fm.Net(m), fm.Net(m, periodic=True, pairs=None)
    mon.check(d1.equals(d2) and d1.attrs["periodic"] is True, "default options of the network")
    if lone:
        mon.near(m.z, .5 * m.h.values, 1e-9 * X, "an isolated fiber does not rest on the floor")
    mesh = fm.Mesh(st)
    carried(mon, mesh, n, X, per, "mesh")
    mon.check(len(mesh) == 2 * len(st), "two nodes for each connection", got=len(mesh), expected=2 * len(st))
    mon.check(sorted(set(mesh.fiber)) == list(range(n)), "a fiber without node")
    if len(mesh) and (mesh.beam.values != mesh.index.values).sum() == 0:
        mon.violate("no element")
    o = case["opts"]
    K, *_ = fm.stiffness(m, mesh, lmin=o["lmin"], lmax=o["lmax"], coupling=o["coupling"])
    C, *_ = fm.constraint(m, mesh)
    N = len(mesh)
    rows = int((np.arange(N) <= mesh.constraint.values).sum())
    mon.check(K.shape == (2 * N, 2 * N) and C.shape == (3 * rows, 2 * N), "size of the system", got=[K.shape, C.shape])
    out = gen.run_solve(case, m, mesh, itermax=30)
    K, C, u, f, F, H, Z, rl, mask, err = out
    mon.ev("solver runs")
    for t in (0, .5, 1):
        mon.check(u(t).shape == (2 * N,) and f(t).shape == (3 * rows,) and H(t).shape == (3 * rows,) and F(t).shape == (2 * N,) and
                  mask(t).shape == (2 * N + 3 * rows,), "size of the results")
        mon.check(np.isfinite(u(t)).all() and np.isfinite(f(t)).all() and np.isfinite(float(Z(t))) and float(rl(t)) >= 1 - 1e-12, "undefined results")
    top = float((mesh.z.values + .5 * m.h.values[mesh.fiber.values]).max())
    mon.near(Z(0), top, 1e-12 * top, "initial position of the wall")
    carried(mon, mesh, n, X, per, "mesh after the solver")
    carried(mon, m, n, X, what="mat after the solver")
    res = dict(z_resolution=4, verbose=False)
    flat = (np.diff(mesh.fiber.values) != 0) | (np.diff(mesh.s.values) > 1e-9 * X)
    a = fm.vtk_mat(m, **res)
    b = fm.vtk_mesh(m, mesh, **res)
    for g in (a, b):
        mon.check(set(np.unique(g["fiber"])) == set(range(n)), "fibers missing from the export", got=np.unique(g["fiber"]))
        mon.ev("exports")
    if flat.all():
        g = fm.vtk_mesh(m, mesh, *u(1).reshape(-1, 2).T, *(f(1) @ C).reshape(-1, 2).T, **res)
        mon.ev("exports")
        mon.check(np.isfinite(g.points).all() and np.isfinite(g["displacement"]).all() and np.isfinite(g["force"]).all(), "undefined points or fields in the export")
        mon.check(set(np.unique(g["fiber"])) == set(range(n)), "fibers missing from the export of results", got=np.unique(g["fiber"]))
    # the same stages from plain tables
    t = {k: pd.DataFrame(v) for k, v in (("m", m), ("net", st), ("mesh", mesh))}
    for k, v in (("m", m), ("net", st), ("mesh", mesh)):
        t[k].attrs = dict(v.attrs)
    mon.check(fm.Mat.check(t["m"]) and fm.Net.check(t["net"]) and fm.Stack.check(t["net"]) and fm.Mesh.check(t["mesh"]), "a plain table is rejected")
    me2 = fm.Mesh(fm.Net(t["net"]))
    carried(mon, me2, n, X, per, "mesh from a table")
    mon.check(len(me2) == 2 * len(st), "mesh from a table")
    mon.ev("resumed from tables")
    mon.ev("one-fiber pipelines", case["what"] == "one")
    mon.ev("unconnected pipelines", lone and n > 1)
    mon.ev("connected pipelines", not lone)
    mon.key(case["what"], n, per, len(net), len(st), case["moduli"], rl.t.size, round(float(rl(1)), 4))
    mon.sample = {"what": case["what"], "fibers": n, "connections": len(net), "steps": len(rl.t) - 1}


def run_empty(case, mon, fm):
    X = case["size"]
    empty = {}
    for kw in ({}, {"size": X}, {"n": 0, "size": X}, {"n": 0, "size": X, "length": .3 * X, "theta": 1., "psi": .2, "seed": None, "shear": 3.}):
        for args in ((), (0,)):
            if args:
                kw = {k: v for k, v in kw.items() if k != "n"}
            o = fm.Mat(*args, **kw)
            is_empty(mon, o, fm.Mat, MATC, "Mat(n=0)")
            carried(mon, o, 0, kw.get("size", 50.), what="empty mat")
    empty = fm.Mat(0, size=X)
    df = pd.DataFrame(empty)
    df.attrs = {"n": 0, "size": X}
    is_empty(mon, fm.Mat(df), fm.Mat, MATC, "Mat(table)")
    for cls, cols in ((fm.Net, NETC), (fm.Stack, NETC), (fm.Mesh, MESHC)):
        for args in ((), (None,)):
            o = cls(*args)
            is_empty(mon, o, cls, cols, cls.__name__ + str(args))
            carried(mon, o, 0, 50., True, "empty " + cls.__name__)
        mon.check(cls.check(None) is True, "check of an omitted %s" % cls.__name__)
    mon.check(fm.Mat.check(None) is True, "check of an omitted Mat")
    for p in (True, False):
        for mat, size in ((None, 50.), (empty, X)):
            net = fm.Net(mat, periodic=p)
            is_empty(mon, net, fm.Net, NETC, "Net(empty)")
            carried(mon, net, 0, size, p, "empty network")
            is_empty(mon, fm.Net(mat, periodic=p, pairs=np.zeros((0, 2), int)), fm.Net, NETC, "Net(empty, pairs)")
            for th in (None, 0., 1., np.inf):
                for given in (net, None):
                    st = fm.Stack(mat, given, threshold=th)
                    is_empty(mon, st, fm.Stack, NETC, "Stack(empty)")
                    carried(mon, st, 0, size, p if given is not None else True, "empty stack")
                    me = fm.Mesh(st)
                    is_empty(mon, me, fm.Mesh, MESHC, "Mesh(empty)")
                    carried(mon, me, 0, size, p if given is not None else True, "empty mesh")
            C, f, H, h = fm.Stack.constraint(mat, net)
            mon.check(C.shape == (0, 0) and len(f) == len(H) == len(h) == 0, "stacking system of no fiber", got=C.shape)
            mon.check(fm.Stack.solve(mat, net) is None, "stacking solution of no fiber")
            for kw in ({}, {"lmin": .1}, {"lmax": 2.}, {"lmin": .1, "lmax": 2., "coupling": .5}):
                K, *v = fm.stiffness(mat, me if mat is not None else None, **kw)
                mon.check(K.shape == (0, 0) and all(len(a) == 0 for a in v), "stiffness of no fiber", got=K.shape)
                mon.ev("empty calls")
            C, *v = fm.constraint(mat, me if mat is not None else None)
            mon.check(C.shape == (0, 0) and all(len(a) == 0 for a in v), "constraints of no fiber", got=C.shape)
            z = np.zeros(0)
            for args in ((), (z,), (z, z), (z, z, z), (z, z, z, z)):
                g = fm.vtk_mesh(mat, me if mat is not None else None, *args, verbose=False)
                mon.check(g.n_points == 0 and g.n_cells == 0, "export of no fiber", got=[g.n_points, g.n_cells])
                mon.ev("empty calls")
            g = fm.vtk_mat(mat, verbose=False)
            mon.check(g.n_points == 0 and g.n_cells == 0, "export of no fiber", got=[g.n_points, g.n_cells])
    mon.check(fm.vtk_mesh(verbose=False).n_points == 0 and fm.vtk_mat(verbose=False).n_points == 0, "export of nothing")
    mon.key("empty", X, case["seed"])
    mon.sample = {"box": X, "stages": "Mat Net Stack Mesh stiffness constraint vtk_mat vtk_mesh"}
