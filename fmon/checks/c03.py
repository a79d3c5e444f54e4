"""C03: fault matrix of the fiber table (documented exception classes) and acceptance of valid tables."""
import warnings
import numpy as np
import pandas as pd
from .. import gen

ID = "C03"
RULE = ("valid fiber tables (15 families, 1-25 fibers, and variants: extra columns, boundary positions, huge or infinite moduli, integer "
        "columns, empty) must be accepted unchanged; each documented single defect is injected at a random row and column and must raise "
        "its documented class in the constructor, the check and each stage; non-trivial = new (defect, column, row, entry point)")
FAULTS = ["column", "attr", "count", "index:dup", "index:perm", "index:offset", "index:gap", "dim", "position", "direction", "modulus", "twice", "outside"]
NEED = dict({"fault:" + f: 20 for f in FAULTS}, **{"accepted": 100, "entry:stage": 100, "skip flag": 20})


def cases(rng, tier):
    k = 1000 if tier == "quick" else 10000
    for i in range(k):
        s = gen.spec(rng, gen.PLANAR + gen.TILTED, 1, 25)
        s["fault"] = FAULTS[i % len(FAULTS)]
        if i % 11 == 0:
            s["n"] = int(rng.integers(40, 250))
        yield s


def inject(t, fault, r):
    """(defective table, exception class, description)"""
    t = t.copy()
    t.attrs = dict(t.attrs)
    n = len(t)
    k = int(r.integers(n))
    size = t.attrs["size"]
    if fault == "column":
        c = gen.pick(r, gen.COLS)
        a = t.attrs
        t = t.drop(columns=c) if r.random() < .7 else t.rename(columns={c: c + "_"})
        t.attrs = a
        return t, KeyError, c
    if fault == "attr":
        c = gen.pick(r, ["n", "size"])
        del t.attrs[c]
        return t, AttributeError, c
    if fault == "count":
        d = int(gen.pick(r, [-1, 1, 7]))
        t.attrs["n"] = n + d
        return t, ValueError, d
    if fault == "index:dup":
        if n == 1:
            t = pd.concat([t, t], ignore_index=True); n = 2
            t.attrs = {"n": 2, "size": size}
        i = list(range(n))
        k = int(r.integers(1, n))
        i[k] = i[k - 1]
        t.index = i
        return t, IndexError, i
    if fault == "index:perm":
        if n == 1:
            t.index = [5]
        else:
            i = np.arange(n)
            a, b = r.choice(n, 2, replace=False)
            i[[a, b]] = i[[b, a]]
            t.index = i
        return t, IndexError, list(t.index)
    if fault == "index:offset":
        t.index = t.index + int(gen.pick(r, [1, -1, 10]))
        return t, IndexError, list(t.index)[:3]
    if fault == "index:gap":
        i = np.arange(n)
        i[-1 if r.random() < .5 else k:] += 1
        t.index = i
        return t, IndexError, i
    if fault == "dim":
        c, v = gen.pick(r, [*"lbh"]), gen.pick(r, [0., -1., -1e-12, float("nan"), float("-inf")])
        t.loc[k, c] = v
        return t, ValueError, (k, c, v)
    if fault == "position":
        c = gen.pick(r, [*"xy"])
        v = gen.pick(r, [.5 * (1 + 1e-9), -.5 * (1 + 1e-9), .51, -.6, 10., float("nan"), float("inf"), float("-inf")]) * size
        t.loc[k, c] = v
        return t, ValueError, (k, c, v)
    if fault == "direction":
        f = gen.pick(r, [0., 1.001, .999, 2., .5, float("nan")])
        t.loc[k, [*"uvw"]] = t.loc[k, [*"uvw"]].values * f
        return t, ValueError, (k, f)
    if fault == "twice":
        # several bad values, which may compensate in a sum, a mean or a product
        kind = gen.pick(r, ["dim", "dim", "modulus", "direction", "direction", "position"])
        if n == 1:
            t = pd.concat([t, t], ignore_index=True)
            t.attrs = {"n": 2, "size": size}
            n = 2
        a, b = (int(i) for i in r.choice(n, 2, replace=False))
        if kind in ("dim", "modulus"):
            c = [gen.pick(r, [*("lbh" if kind == "dim" else "GE")]) for _ in range(2)]
            if r.random() < .5:
                b = a
            for i, k_ in ((a, c[0]), (b, c[1])):
                t.loc[i, k_] = -1. * gen.pick(r, [1., 1e-3, 1e3])
        elif kind == "direction":
            f = gen.pick(r, [.5, .9, .99, .999])
            g = gen.pick(r, [2. - f, 1. / f, (2 - f * f) ** .5])
            for i, q in ((a, f), (b, g)):
                t.loc[i, [*"uvw"]] = t.loc[i, [*"uvw"]].values * q
        else:
            c = gen.pick(r, [*"xy"])
            d = gen.pick(r, [.6, 1., 1.2]) * size
            t.loc[a, c], t.loc[b, c] = d, -d
        return t, ValueError, (kind, a, b)
    if fault == "outside":
        # outside by one coordinate only, the others at the centre
        c = gen.pick(r, [*"xy"])
        t.loc[k, ["x", "y"]] = 0.
        t.loc[k, c] = gen.pick(r, [-1, 1]) * size * gen.pick(r, [.5 + 1e-6, .52, .6, .7])
        if r.random() < .5:
            t["x"], t["y"] = t.x * (np.arange(n) == k), t.y * (np.arange(n) == k)
        return t, ValueError, (k, c)
    if fault == "modulus":
        c, v = gen.pick(r, [*"GE"]), gen.pick(r, [0., -1., -1e-12, float("nan"), float("-inf")])
        t.loc[k, c] = v
        return t, ValueError, (k, c, v)


def stages(t, good):
    """Entry points that take a fiber table."""
    from fibermat import Mat, Net, Stack, stiffness, constraint, solve, vtk_mat, vtk_mesh
    net, mesh = good
    return {
        "Net": lambda: Net(mat=t, periodic=False),
        "Net.init": lambda: Net.init(t),
        "Stack": lambda: Stack(mat=t, net=net),
        "Stack.solve": lambda: Stack.solve(t, net),
        "Stack.constraint": lambda: Stack.constraint(t, net),
        "stiffness": lambda: stiffness(t, mesh),
        "constraint": lambda: constraint(t, mesh),
        "solve": lambda: solve(t, mesh, itermax=1, verbose=False),
        "vtk_mat": lambda: vtk_mat(t, verbose=False),
        "vtk_mesh": lambda: vtk_mesh(t, mesh, verbose=False),
    }


def run(case, mon):
    from fibermat import Mat, Net, Mesh
    t = gen.table(case)
    r = gen.rng_of(case, 3)
    # -- valid tables, with legitimate oddities
    g = t.copy()
    g.attrs = dict(t.attrs, extra="kept")
    if r.random() < .5:
        g["label"] = "a"
    if r.random() < .5:
        g.loc[int(r.integers(len(g))), "x"] = .5 * g.attrs["size"] * r.choice([-1, 1])
    if r.random() < .5:
        g.loc[int(r.integers(len(g))), gen.pick(r, [*"GE"])] = np.inf
    if r.random() < .3:
        g.loc[int(r.integers(len(g))), "l"] = 1e9
    if r.random() < .3:
        g.loc[int(r.integers(len(g))), "z"] = 1e9
    if r.random() < .2:
        g["b"] = 2
    if r.random() < .3:
        g.loc[:, [*"uvw"]] = g[[*"uvw"]].values * (1 + 1e-10)
    if r.random() < .2:
        g = g[list(r.permutation(g.columns))].copy()
        g.attrs = dict(t.attrs, extra="kept")
    before = g.copy()
    for src in (g, Mat(g)):
        m = Mat(src)
        mon.check(Mat.check(src) is True, "valid table: the check does not return True")
        mon.check(m.check() is True, "valid table: the check does not return True")
        mon.check(list(m.columns) == list(before.columns) and m.equals(before) and m.attrs == dict(t.attrs, extra="kept")
                  and list(m.index) == list(range(len(m))), "valid table altered by the constructor")
        mon.ev("accepted")
    mon.check(Mat.check(None) is True, "check(None)")
    # -- one defect
    bad, exc, desc = inject(t, case["fault"], r)
    mon.ev("fault:" + case["fault"])
    mon.raises(exc, lambda: Mat(bad), "Mat(df) with %s defect" % case["fault"], defect=desc)
    mon.raises(exc, lambda: Mat.check(bad), "Mat.check(df) with %s defect" % case["fault"], defect=desc)
    m = Mat(t)
    net = Net(m, periodic=False)
    mesh = Mesh(net)
    S = stages(bad, (net, mesh))
    for name in [gen.pick(r, sorted(S)) for _ in range(3)]:
        mon.raises(exc, S[name], "%s(df) with %s defect" % (name, case["fault"]), defect=desc)
        mon.ev("entry:stage")
        mon.key(case["fault"], desc, name)
    # in-place corruption of a Mat object
    if case["fault"] in ("dim", "position", "direction", "modulus"):
        k = desc[0]
        m.loc[k] = bad.loc[k]
        mon.raises(exc, m.check, "mat.check() after corruption", defect=desc)
        mon.raises(exc, lambda: Mat(m), "Mat(mat) after corruption", defect=desc)
    # -- the skip flag, and only it
    for flag, on in ((True, True), (False, False), (0, False)):
        s = bad.copy()
        s.attrs = dict(bad.attrs, skip_check=flag)
        if on:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mon.check(Mat.check(s) is True, "skip flag ignored")
        else:
            mon.raises(exc, lambda: Mat.check(s), "inactive skip flag")
        mon.ev("skip flag")
    mon.sample = {"fault": case["fault"], "defect": str(desc), "expected": exc.__name__}
