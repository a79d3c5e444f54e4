"""C04: fault matrix of networks, stacks and meshes, and re-acceptance of library-made tables."""
import warnings
import numpy as np
import pandas as pd
from .. import gen

ID = "C04"
RULE = ("networks, stacks (with thresholds) and meshes built by the library on 10 families (2-20 fibers) must be accepted again unchanged; "
        "each documented single defect is injected at a random row and must raise its documented class in the constructor, the check "
        "and a later stage; non-trivial = new (table kind, defect, position)")
NETF = ["column", "attr", "index:dup", "index:perm", "index:offset", "float", "low", "high", "dup", "order"]
MESHF = ["column", "attr", "index:dup", "index:perm", "index:offset", "float:fiber", "float:beam", "float:constraint", "fiber:high", "fiber:low",
         "beam:range", "constraint:range", "sorted:s", "sorted:fiber", "beam:link", "reciprocal", "cycle", "ends", "ends:inner"]
NEED = dict({"net:" + f: 15 for f in NETF}, **{"mesh:" + f: 10 for f in MESHF}, **{"accepted": 300, "entry:stage": 200, "linked twice": 100})


def cases(rng, tier):
    k = 500 if tier == "quick" else 9000
    for i in range(k):
        s = gen.spec(rng, [f for f in gen.PLANAR if f != "sparse"], 3, 20)
        s["nf"], s["mf"] = NETF[i % len(NETF)], MESHF[i % len(MESHF)]
        s["threshold"] = gen.pick(rng, [None, None, 0., .05 * s["length"]])
        yield s


def frame(df):
    """Plain DataFrame with the same data and attributes."""
    t = pd.DataFrame({c: df[c].values.copy() for c in df.columns}, index=df.index.copy())
    t.attrs = dict(df.attrs)
    return t


def common(t, fault, cols, attrs, r):
    n = len(t)
    if fault == "column":
        c = gen.pick(r, cols)
        a = t.attrs
        t = t.drop(columns=c)
        t.attrs = a
        return t, KeyError, c
    if fault == "attr":
        c = gen.pick(r, attrs)
        del t.attrs[c]
        return t, AttributeError, c
    i = np.arange(n)
    if fault == "index:dup":
        k = int(r.integers(1, n))
        i[k] = i[k - 1]
    elif fault == "index:perm":
        a, b = r.choice(n, 2, replace=False)
        i[[a, b]] = i[[b, a]]
    else:
        i = i + int(gen.pick(r, [1, -1, 4]))
    t.index = i
    return t, IndexError, i[:4]


def bad_net(t, fault, r):
    t = frame(t)
    n = len(t)
    if fault in ("column", "attr") or fault.startswith("index"):
        return common(t, fault, ["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"], ["n", "size", "periodic"], r)
    k = int(r.integers(n))
    if fault == "float":
        c = gen.pick(r, ["A", "B"])
        t[c] = t[c].astype(float)
        return t, TypeError, c
    if fault == "low":
        t.loc[k, "A"] = -1
        return t, ValueError, k
    if fault == "high":
        t.loc[k, "B"] = t.attrs["n"] + int(r.integers(2))
        return t, ValueError, k
    if fault == "dup":
        a = t.attrs
        t = pd.concat([t, t.iloc[[k]]], ignore_index=True)
        t.attrs = a
        return t, ValueError, k
    if fault == "order":
        c = np.flatnonzero((t.A != t.B).values)
        if not len(c):
            return None
        k = int(gen.pick(r, c))
        t.loc[k, ["A", "B"]] = t.loc[k, ["B", "A"]].values.astype(int)
        return t, ValueError, k


def bad_mesh(t, fault, r):
    t = frame(t)
    n = len(t)
    if fault in ("column", "attr") or fault.startswith("index"):
        return common(t, fault, ["fiber", *"sxyz", "beam", "constraint"], ["n", "size", "periodic"], r)
    k = int(r.integers(n))
    con = np.flatnonzero((t.constraint != t.index).values)
    end = np.flatnonzero((t.constraint == t.index).values)
    if fault.startswith("float"):
        c = fault[6:]
        t[c] = t[c].astype(float)
        return t, TypeError, c
    if fault == "fiber:high":
        t.loc[t.fiber == t.fiber.max(), "fiber"] = t.attrs["n"]
        return t, ValueError, "last"
    if fault == "fiber:low":
        t.loc[t.fiber == t.fiber.min(), "fiber"] = -1
        return t, ValueError, "first"
    if fault in ("beam:range", "constraint:range"):
        v = gen.pick(r, [-1, n, n + 3])
        t.loc[k, fault.split(":")[0]] = v
        return t, ValueError, (k, v)
    if fault == "sorted:s":
        c = np.flatnonzero((np.diff(t.fiber) == 0) & (np.diff(t.s) > 0))
        k = int(gen.pick(r, c))
        t.loc[[k, k + 1], "s"] = t.loc[[k + 1, k], "s"].values
        return t, ValueError, k
    if fault == "sorted:fiber":
        f = np.unique(t.fiber)
        if len(f) < 2:
            return None
        a, b = r.choice(f, 2, replace=False)
        x = t.fiber.values.copy()
        t["fiber"] = np.where(x == a, b, np.where(x == b, a, x))
        return t, ValueError, (a, b)
    if fault == "beam:link":
        a, b = r.choice(n, 2, replace=False)
        t.loc[[a, b], "beam"] = t.loc[[b, a], "beam"].values
        return t, ValueError, (a, b)
    if fault == "reciprocal":
        if not len(con):
            return None
        k = int(gen.pick(r, con))
        j = int(t.constraint[k])
        v = gen.pick(r, [k] + [i for i in range(n) if i not in (k, j)][:8])
        t.loc[k, "constraint"] = v
        return t, ValueError, (k, v)
    if fault == "cycle":
        # every node is designated once, but not by the node that it designates
        p = [(int(a), int(t.constraint[a])) for a in con if a < t.constraint[a]]
        if len(p) < 2:
            return None
        i, j = r.choice(len(p), 2, replace=False)
        c = [p[i][0], p[j][gen.pick(r, [0, 1])]]
        if r.random() < .4:
            c.append(p[i][1])
        t.loc[c, "constraint"] = np.roll(t.loc[c, "constraint"].values, 1)
        return t, ValueError, c
    if fault == "ends:inner":
        # an end node connected (reciprocally) to an inner node
        if not len(con):
            return None
        k, e = int(gen.pick(r, con)), int(gen.pick(r, end))
        j = int(t.constraint[k])
        t.loc[[e, k, j], "constraint"] = [k, e, j]
        return t, ValueError, (e, k)
    if fault == "ends":
        if len(end) < 2:
            return None
        a, b = r.choice(end, 2, replace=False)
        t.loc[[a, b], "constraint"] = [b, a]
        return t, ValueError, (a, b)


def accept(mon, cls, df):
    """Library-made tables are accepted again, unchanged."""
    for src in (df, frame(df)):
        x = cls(src)
        mon.check(cls.check(src) is True and x.check() is True, "the check of a valid table does not return True", cls=cls.__name__)
        mon.check(list(x.columns) == list(df.columns) and list(x.index) == list(df.index)
                  and all(np.array_equal(x[c].values, df[c].values) and x[c].dtype == df[c].dtype for c in df.columns)
                  and dict(x.attrs) == dict(df.attrs), "valid table altered by the constructor", cls=cls.__name__)
        mon.ev("accepted")


def linked_twice(net, r):
    """Valid table with several (different) connections between the same fibers."""
    t = frame(net)
    c = t[t.A != t.B]
    if not len(c):
        return None
    e = c.iloc[[int(r.integers(len(c)))] * int(r.integers(1, 4))].copy()
    kind = r.integers(3)
    half = t[t.A == t.B].set_index("A").sA
    for k, s in (("A", "sA"), ("B", "sB")):
        if kind != (k == "A"):
            # towards the centres of the fibers
            e[s] -= np.where(e[s] > 0, 1, -1) * 1e-3 * np.arange(1, len(e) + 1) * half.loc[e[k]].values
    a = t.attrs
    t = pd.concat([t, e])
    t = (t.iloc[r.permutation(len(t))] if r.random() < .5 else t).reset_index(drop=True)
    t.attrs = dict(a)
    return t


def run(case, mon):
    from fibermat import Mat, Net, Stack, Mesh, stiffness, constraint, solve, vtk_mesh
    r = gen.rng_of(case, 4)
    m, net, st, mesh = gen.pipeline(case)
    accept(mon, Net, net)
    accept(mon, Net, st)
    accept(mon, Stack, st)
    accept(mon, Stack, net)
    accept(mon, Mesh, mesh)
    for c in (Net, Stack, Mesh):
        mon.check(c.check(None) is True, "check(None)")
    t = linked_twice(net, r)
    if t is not None:
        accept(mon, Net, t)
        accept(mon, Stack, t)
        accept(mon, Mesh, Mesh(net=t))
        mon.ev("linked twice")
    b = bad_net(net if r.random() < .5 else st, case["nf"], r)
    if b is not None:
        t, exc, desc = b
        f = case["nf"]
        mon.ev("net:" + f)
        for name, fun in {"Net(df)": lambda: Net(t), "Net.check(df)": lambda: Net.check(t), "Stack(df)": lambda: Stack(t),
                          "Stack.check(df)": lambda: Stack.check(t)}.items():
            mon.raises(exc, fun, "%s with %s defect" % (name, f), defect=desc)
        later = {"Stack(mat, df)": lambda: Stack(m, t), "Stack.solve(mat, df)": lambda: Stack.solve(m, t),
                 "Stack.constraint(mat, df)": lambda: Stack.constraint(m, t), "Mesh(net=df)": lambda: Mesh(net=t), "Mesh.init(df)": lambda: Mesh.init(t)}
        for name in [gen.pick(r, sorted(later)) for _ in range(2)]:
            mon.raises(exc, later[name], "%s with %s defect" % (name, f), defect=desc)
            mon.ev("entry:stage")
            mon.key("net", f, desc, name)
        skip(mon, Net, t, exc)
    b = bad_mesh(mesh, case["mf"], r)
    if b is not None:
        t, exc, desc = b
        f = case["mf"]
        mon.ev("mesh:" + f)
        mon.raises(exc, lambda: Mesh(t), "Mesh(df) with %s defect" % f, defect=desc)
        mon.raises(exc, lambda: Mesh.check(t), "Mesh.check(df) with %s defect" % f, defect=desc)
        later = {"stiffness(mat, df)": lambda: stiffness(m, t), "constraint(mat, df)": lambda: constraint(m, t),
                 "solve(mat, df)": lambda: solve(m, t, itermax=1, verbose=False), "vtk_mesh(mat, df)": lambda: vtk_mesh(m, t, verbose=False)}
        for name in [gen.pick(r, sorted(later)) for _ in range(2)]:
            mon.raises(exc, later[name], "%s with %s defect" % (name, f), defect=desc)
            mon.ev("entry:stage")
            mon.key("mesh", f, desc, name)
        skip(mon, Mesh, t, exc)
        mon.sample = {"mesh fault": f, "net fault": case["nf"], "expected": exc.__name__}


def skip(mon, cls, t, exc):
    for flag in (True, False):
        s = frame(t)
        s.attrs["skip_check"] = flag
        if flag:
            mon.check(cls.check(s) is True, "skip flag ignored", cls=cls.__name__)
        else:
            mon.raises(exc, lambda: cls.check(s), "inactive skip flag")
