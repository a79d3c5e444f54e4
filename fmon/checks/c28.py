"""C28: no call modifies or shares its arguments (documented updates excepted), and histories do not matter."""
import copy, hashlib
import numpy as np
import pandas as pd
import scipy.sparse as sp
from .. import gen

ID = "C28"
RULE = ("random histories of about 25 public calls on a pool of fiber sets, networks, stacks, meshes, matrices, results, arrays and VTK datasets; "
        "after each call every object of the pool is compared with its snapshot (documented updates excepted) and the memory of the result is compared "
        "with that of the pool; calls are repeated at once and again at the end of the history on copies of their arguments; objects taken from the "
        "pool are overwritten and the others must not change; non-trivial = new history with at least 12 calls")
NEED = {"histories": 40, "calls": 800, "snapshots compared": 10000, "memory compared": 1500, "repeated calls": 700, "replayed calls": 200,
        "objects overwritten": 50, "attributes overwritten": 50, "kind Stack": 40, "kind solve": 40, "kind vtk_mesh": 40,
        "kind constraint": 40, "kind plot_system": 10, "kind Interpolate": 30, "kind evaluate": 15, "kind pairs": 20, "fibers retouched": 40, "calls on fresh copies": 300}
ASSUMPTIONS = ["conversions of a DataFrame (Mat(mat), Net(net), ...) follow the documented pandas constructor: values are shared unless copy=True is given, attributes never"]


# -- observation ------------------------------------------------------------
def dig(a):
    a = np.ascontiguousarray(a)
    return (str(a.dtype), a.shape, hashlib.blake2b(repr(a.tolist()).encode() if a.dtype == object else a.tobytes(), digest_size=8).hexdigest())


def snap(o):
    """Parts of an object -> digest."""
    from fibermat import Interpolate
    if isinstance(o, pd.DataFrame):
        d = {"column " + str(k): dig(o[k].values) for k in o.columns}
        d.update(type=type(o).__name__, columns=list(map(str, o.columns)), index=dig(o.index.values), attrs=repr(sorted(o.attrs.items())))
        return d
    if sp.issparse(o):
        c = o.tocoo()
        return {"matrix": (o.format, o.shape, dig(c.row), dig(c.col), dig(c.data))}
    if isinstance(o, np.ndarray):
        return {"array": dig(o)}
    if isinstance(o, Interpolate):
        return {"samples": dig(o.y), "abscissae": dig(o.x), "t": dig(o.t), "y0": dig(o.y0), "mask": dig(o.mask), "dtype": str(o.dtype),
                "values": [dig(o(t)) for t in (0., .37, 1.)]}
    if hasattr(o, "point_data"):
        d = {"points": dig(o.points), "cells": [o.n_points, o.n_cells]}
        if hasattr(o, "cells"):
            d["connectivity"] = dig(o.cells)
        d.update({"field " + k: dig(o.point_data[k]) for k in o.point_data.keys()})
        return d
    if isinstance(o, (tuple, list)):
        return {"%d %s" % (i, k): v for i, a in enumerate(o) for k, v in snap(a).items()}
    if isinstance(o, dict):
        return {str(k): snap(v) for k, v in o.items()}
    return {"value": repr(o)}


def arrays(o):
    """Every array holding data of an object."""
    from fibermat import Interpolate
    if isinstance(o, pd.DataFrame):
        return [o[k].values for k in o.columns]
    if sp.issparse(o):
        return [getattr(o, k) for k in ("data", "indices", "indptr", "row", "col") if hasattr(o, k)]
    if isinstance(o, np.ndarray):
        return [o]
    if isinstance(o, Interpolate):
        return [np.asarray(a) for a in (o.y, o.x, o.t, o._y, o.y0, o.mask)]
    if hasattr(o, "point_data"):
        return [np.asarray(o.points)] + [np.asarray(o.point_data[k]) for k in o.point_data.keys()]
    if isinstance(o, (tuple, list)):
        return [b for a in o for b in arrays(a)]
    if isinstance(o, dict):
        return [b for a in o.values() for b in arrays(a)]
    return []


def dup(o):
    if isinstance(o, pd.DataFrame):
        d = pd.DataFrame({k: o[k].values.copy() for k in o.columns}, index=o.index.values.copy(), columns=list(o.columns))
        d.attrs = copy.deepcopy(dict(o.attrs))
        return d if type(o) is pd.DataFrame else type(o)(d)
    if isinstance(o, (tuple, list)):
        return type(o)(dup(a) for a in o)
    if isinstance(o, dict):
        return {k: dup(v) for k, v in o.items()}
    if callable(o) and not hasattr(o, "y0"):
        return o
    return copy.deepcopy(o)


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


# -- histories --------------------------------------------------------------
def cases(rng, tier):
    k = 100 if tier == "quick" else 1500
    for i in range(k):
        s = gen.solve_spec(rng, 2, 12)
        s["opts"]["itermax"] = 20
        s["steps"] = int(rng.integers(14, 34))
        if i % 9 == 3:
            s.update(fam="tilted")
        yield s


def order(r, n):
    """A permutation: any, backwards, or nearly the identity."""
    k = r.integers(4)
    p = np.arange(n)
    if k == 0:
        return p[::-1].copy()
    if k == 1:
        m = min(n, int(r.integers(2, 6)))
        p[:m] = p[:m][::-1]
        return p
    return r.permutation(n)


class Pool:
    def __init__(self, mon):
        self.mon, self.items, self.n = mon, [], 0

    def add(self, kind, o, **link):
        self.items.append({"kind": kind, "o": o, "snap": snap(o), **link})
        return self.items[-1]

    def of(self, kind):
        return [i for i in self.items if i["kind"] == kind]

    def verify(self, what, allowed=()):
        """allowed: [(object, {parts that may change})]"""
        for it in self.items:
            now = snap(it["o"])
            self.mon.ev("snapshots compared")
            if now != it["snap"]:
                d = set(diff(now, it["snap"]))
                for o, parts in allowed:
                    if o is it["o"]:
                        d -= set(parts)
                self.mon.check(not d, "%s changed a %s" % (what, it["kind"]), parts=sorted(d))
                it["snap"] = now


def run(case, mon):
    import fibermat as fm
    from matplotlib import pyplot as plt
    r = gen.rng_of(case, 28)
    pool = Pool(mon)
    opts = {k: v for k, v in case["opts"].items()}
    log = []

    def call(kind, f, args, kw=None, allowed=(), share=()):
        """One public call under observation."""
        kw = kw or {}
        before = dup((list(args), kw))
        try:
            out = f(*args, **kw)
        except (ZeroDivisionError, np.linalg.LinAlgError, RuntimeError) as e:
            mon.note("%s: %s" % (kind, type(e).__name__))
            return None
        mon.ev("calls")
        mon.ev("kind " + kind)
        pool.verify(kind, allowed)
        mine = arrays(out)
        for it in pool.items:
            if any(it["o"] is s for s in share):
                continue
            hit = [1 for a in mine for b in arrays(it["o"]) if a.size and b.size and np.may_share_memory(a, b) and np.shares_memory(a, b)]
            mon.ev("memory compared")
            mon.check(not hit, "the result of %s shares data with a %s" % (kind, it["kind"]), arrays=len(hit))
            if isinstance(out, pd.DataFrame) and isinstance(it["o"], pd.DataFrame):
                mon.check(out.attrs is not it["o"].attrs, "the result of %s shares attributes with a %s" % (kind, it["kind"]))
        first = snap(out)
        again = f(*args, **kw)
        mon.ev("repeated calls")
        mon.check(snap(again) == first, "%s repeated on the same input differs" % kind, parts=diff(snap(again), first))
        pool.verify(kind + " repeated", allowed)
        log.append((kind, f, before, first))
        if kind != "copy" and any(isinstance(a, pd.DataFrame) for a in args):
            # nothing is remembered of earlier calls with these objects
            fa, fk = before
            fresh = f(*[bare(a) for a in fa], **dup(fk))
            mon.ev("calls on fresh copies")
            mon.check(snap(fresh) == first, "%s on a fresh copy of its input differs" % kind, parts=diff(snap(fresh), first))
        return out

    def bare(o):
        o = dup(o)
        if isinstance(o, fm.Mesh) and "h" in o.columns:
            a = dict(o.attrs)
            o = o.drop(columns="h")
            o.attrs = a
            o = fm.Mesh(o)
        return o

    def choose(kind):
        a = pool.of(kind)
        return a[int(r.integers(len(a)))] if a else None

    df = gen.table(case)
    pool.add("table", df)
    size = np.asarray(case["size"], float)
    ops = ["Mat", "new Mat", "Net", "pairs", "Stack", "convert", "Mesh", "stiffness", "constraint", "solve", "check", "vtk_mat", "vtk_mesh", "vtk_fiber",
           "plot_system", "Interpolate", "evaluate", "lin", "overwrite", "overwrite", "retouch", "retouch", "constraint", "stiffness", "Stack"]
    # a complete pipeline first, then anything
    plan = ["Mat", "Net", "Stack", "Mesh"] + [gen.pick(r, ops) for _ in range(case["steps"])]
    mon.ev("histories")
    for k in plan:
        mat, net, mesh = choose("Mat"), choose("Net"), choose("Mesh")
        if k == "Mat":
            o = call("Mat", fm.Mat, [df], {"copy": True})
            pool.add("Mat", o, id=case["seed"])
        elif k == "new Mat":
            kw = dict(n=int(r.integers(0, 6)), size=float(size), length=float(size) / 2, seed=int(r.integers(9)), theta=1., psi=.1)
            call("Mat", fm.Mat, [], kw)
        elif k == "Net" and mat:
            o = call("Net", fm.Net, [mat["o"]], {"periodic": bool(r.random() < .5)})
            pool.add("Net", o, mat=mat)
        elif k == "pairs" and mat:
            n = len(mat["o"])
            P = np.c_[np.triu_indices(n)]
            P = P[(P[:, 0] == P[:, 1]) | (r.random(len(P)) < .6)]
            item = pool.add("pairs", P)
            o = call("pairs", fm.Net, [mat["o"]], {"periodic": False, "pairs": P})
            pool.items = [i for i in pool.items if i is not item]
            pool.add("Net", o, mat=mat)
        elif k == "Stack" and net:
            net = choose("Net")
            o = call("Stack", fm.Stack, [net["mat"]["o"], net["o"]], {"threshold": case.get("threshold")}, allowed=[(net["mat"]["o"], {"column z"})])
            pool.add("Net", o, mat=net["mat"])
        elif k == "convert":
            it = gen.pick(r, [i for i in pool.items if isinstance(i["o"], (fm.Mat, fm.Net, fm.Mesh))])
            o = it["o"]
            deep = bool(r.random() < .7)
            if deep:
                call("copy", type(o), [o], {"copy": True})
            else:
                c = type(o)(o)
                mon.check(c.attrs is not o.attrs, "a converted %s shares the attributes" % it["kind"])
                c.attrs["size"] = -1
                c.attrs["other"] = 1
                mon.ev("attributes overwritten")
                pool.verify("changing the attributes of a converted object")
        elif k == "Mesh" and net:
            o = call("Mesh", fm.Mesh, [net["o"]])
            pool.add("Mesh", o, mat=net["mat"])
        elif k == "stiffness" and mesh:
            o = call("stiffness", fm.stiffness, [mesh["mat"]["o"], mesh["o"]], {a: opts[a] for a in ("lmin", "lmax", "coupling")})
            if o is not None and r.random() < .5:
                pool.add("system", list(o))
        elif k == "constraint" and mesh:
            o = call("constraint", fm.constraint, [mesh["mat"]["o"], mesh["o"]], allowed=[(mesh["o"], {"column h", "columns"})])
            h_ok(mon, mesh)
            if r.random() < .5:
                pool.add("system", list(o))
        elif k == "solve" and mesh:
            kw = dict(opts, verbose=False, interp_size=gen.pick(r, [None, 7]))
            if r.random() < .4:
                L = mesh["o"].shape[0] * 2 + 3 * int((np.arange(len(mesh["o"])) <= mesh["o"].constraint.values).sum())
                kw["perm"] = order(r, L)
                pool.add("permutation", kw["perm"])
            o = call("solve", fm.solve, [mesh["mat"]["o"], mesh["o"]], kw, allowed=[(mesh["o"], {"column h", "columns"})])
            h_ok(mon, mesh)
            if o is not None:
                pool.add("results", list(o), mesh=mesh)
        elif k == "evaluate":
            it = choose("results") or choose("Interpolate")
            if it is None:
                continue
            o = it["o"]
            g = o[int(r.integers(2, 10))] if isinstance(o, list) else o
            t = r.random(4)
            item = pool.add("times", t)
            v = call("evaluate", lambda g, t: [g(t), g(.3), g()], [g, t])
            for a in v:
                a[...] = 0
            pool.verify("changing evaluated results")
            pool.items = [i for i in pool.items if i is not item]
        elif k == "Interpolate":
            y = [r.normal(size=5) for _ in range(6)] if r.random() < .5 else r.normal(size=(6, 3))
            pool.add("samples", y)
            o = call("Interpolate", fm.Interpolate, [y], {"size": gen.pick(r, [None, 4, 11]), "kind": gen.pick(r, ["linear", "previous", "cubic"])})
            pool.add("Interpolate", o)
        elif k == "check":
            it = gen.pick(r, [i for i in pool.items if isinstance(i["o"], (fm.Mat, fm.Net, fm.Mesh))])
            call("check", type(it["o"]).check, [it["o"]])
        elif k == "lin" and net:
            call("Stack.constraint", fm.Stack.constraint, [net["mat"]["o"], net["o"]])
            call("Stack.solve", lambda *a: fm.Stack.solve(*a).x, [net["mat"]["o"], net["o"]])
        elif k == "vtk_fiber":
            call("vtk_fiber", fm.vtk_fiber, list(r.uniform(.5, 3., 9)), {"index": 3})
        elif k == "vtk_mat" and mat:
            o = call("vtk_mat", fm.vtk_mat, [mat["o"]], {"verbose": False, "z_resolution": 4})
            if r.random() < .3:
                pool.add("VTK", o)
        elif k == "vtk_mesh" and mesh:
            N = len(mesh["o"])
            d, q, p, w = r.normal(size=(4, N))
            if r.random() < .4:
                # results of any magnitude, with exact zeros
                for a in (d, q, p, w):
                    a *= 10 ** r.uniform(-14, 3, N) * (r.random(N) < .9)
            args = [d, q, p, w][:int(r.integers(0, 5))]
            for a in args:
                pool.add("field", a)
            o = call("vtk_mesh", fm.vtk_mesh, [mesh["mat"]["o"], mesh["o"], *args], {"verbose": False, "z_resolution": 4})
            if r.random() < .3:
                pool.add("VTK", o)
        elif k == "plot_system" and mesh:
            m, me = dup(mesh["mat"]["o"]), dup(mesh["o"])
            a = [*fm.stiffness(m, me, **{a: opts[a] for a in ("lmin", "lmax", "coupling")}), *fm.constraint(m, me)]
            if not np.isfinite(a[0].data).all():
                mon.note("singular element")
                continue
            kw = {}
            if r.random() < .5:
                kw["perm"] = order(r, a[0].shape[0] + a[5].shape[0])
            item = pool.add("system", a + list(kw.values()))
            call("plot_system", lambda *a, **k: fm.plot_system(*a, **k) is None, a, kw)
            plt.close("all")
            pool.items = [i for i in pool.items if i is not item]
        elif k == "retouch" and mat:
            # the user changes sections, moduli or heights of a fiber set that was used before
            o = mat["o"]
            for c in gen.pick(r, [["h"], ["h", "b"], ["G"], ["E"], ["z"], ["h", "G", "E"]]):
                v = o[c].values * r.uniform(.5, 2., len(o) if r.random() < .5 else 1)
                if r.random() < .5:
                    o[c] = v
                else:
                    o.loc[:, c] = v
            mat["snap"] = snap(o)
            mon.ev("fibers retouched")
            pool.verify("retouching fibers")
        elif k == "overwrite":
            # a later change of one object
            cand = [i for i in pool.items if i["kind"] not in ("table",)]
            if len(cand) < 4:
                continue
            it = cand[int(r.integers(len(cand)))]
            if it["kind"] in ("Mat", "Net", "Mesh") and len(pool.of(it["kind"])) < 2:
                continue
            o = it["o"]
            pool.items = [i for i in pool.items if i is not it]
            if it["kind"] == "Mat":
                # linked objects are no longer used with it
                keep = dup(o)
                new = pool.add("Mat", keep)
                for j in pool.items:
                    if j.get("mat") is it:
                        j["mat"] = new
            if isinstance(o, pd.DataFrame):
                o.attrs["size"] = -7.
                o.attrs["n"] = -1
                o.attrs["more"] = True
                mon.ev("attributes overwritten")
                pool.verify("changing attributes of a " + it["kind"])
                for c in list(o.columns):
                    o[c].values[...] = 77
                if len(o):
                    o.iloc[0, 0] = 5
                    o.drop(index=o.index[0], inplace=True)
                o["added"] = 0
            else:
                for a in arrays(o):
                    if a.flags.writeable:
                        a[...] = np.ones(1, a.dtype)[0]
            mon.ev("objects overwritten")
            pool.verify("overwriting a " + it["kind"])
    # the whole history must not matter
    for j in r.permutation(len(log))[:8]:
        kind, f, (args, kw), first = log[j]
        out = snap(f(*args, **kw))
        mon.ev("replayed calls")
        mon.check(out == first, "%s gives another result after other calls" % kind, parts=diff(out, first))
    if len(log) >= 12:
        mon.key(case["seed"], [l[0] for l in log])
        mon.sample = {"calls": [l[0] for l in log], "objects": [i["kind"] for i in pool.items]}


def h_ok(mon, mesh):
    m, o = mesh["mat"]["o"], mesh["o"]
    if "h" in o.columns:
        mon.check(np.array_equal(o.h.values, m.h.values[o.fiber.values]), "the thickness column of the mesh is not that of the fibers")
