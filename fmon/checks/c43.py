"""C43: options that are not given have their documented values, and options reach the stage they belong to."""
import contextlib
import io
import re
import warnings
import numpy as np
import pandas as pd
import scipy.sparse.linalg as spl
from .. import gen
from .c28 import snap, diff

ID = "C43"
RULE = ("every public call made twice on drawn inputs: some options given (drawn values), the others once omitted and once given their documented value; all results, prints, progress and "
        "warnings compared; the same through the stages that pass options on (generation to stacking from one set of options, solver to stiffness, exports to fibers); non-trivial = new "
        "call and options")
NEED = {"pairs of calls": 600, "options omitted": 3000, "kind:Mat": 40, "kind:Net": 30, "kind:Stack": 30, "kind:Mesh": 30, "kind:stiffness": 30, "kind:solve": 60, "kind:vtk_fiber": 30,
        "kind:vtk_mat": 20, "kind:vtk_mesh": 20, "kind:plot_system": 20, "kind:Interpolate": 20, "kind:one dictionary": 20, "kind:accuracy": 20, "kind:near contact": 20,
        "errors on both sides of the default": 10, "clearances on both sides of the default": 10, "iterations shown": 20}
ASSUMPTIONS = ["as C17"]
KINDS = ["Mat", "Net", "Stack", "Mesh", "stiffness", "solve", "solve", "vtk_fiber", "vtk_mat", "vtk_mesh", "plot_system", "Interpolate", "one dictionary", "accuracy", "near contact"]
# documented values
MAT = dict(n=0, length=25., width=1., thickness=1., size=50., theta=np.pi, psi=0., shear=1., tensile=np.inf, seed=0)
FIBER = dict(length=25., width=1., thickness=1., x=0., y=0., z=0., u=1., v=0., w=0., shear=1., tensile=np.inf, index=None)
RES = dict(r_resolution=1, theta_resolution=8, z_resolution=20)
SOLVE = dict(packing=1., itermax=1000, solve=spl.spsolve, perm=None, tol=1e-6, errtol=1e-6, interp_size=None, verbose=True, lmin=None, lmax=None, coupling=1.)


def cases(rng, tier):
    k = 900 if tier == "quick" else 9000
    for i in range(k):
        s = gen.solve_spec(rng, 1, 14)
        s["kind"] = KINDS[i % len(KINDS)]
        yield s


class Same:
    def __init__(self, mon, r, kind):
        self.mon, self.r, self.kind = mon, r, kind

    def out(self, f, *a, **k):
        """Result, prints and warnings of a call."""
        o, e = io.StringIO(), io.StringIO()
        with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
            warnings.simplefilter("always")
            try:
                x = f(*a, **k)
            except (RuntimeError, ValueError, ZeroDivisionError, np.linalg.LinAlgError) as err:
                return None, {"raised": type(err).__name__}
        last = re.sub(r"\[.*", "", re.split(r"[\r\n]", e.getvalue().strip())[-1])  # : (without rates)
        d = {"result " + k: v for k, v in snap(x).items()}
        d.update(printed=o.getvalue(), progress=last, warnings=sorted(str(x.message)[:60] for x in w if issubclass(x.category, UserWarning)))
        return x, d

    def __call__(self, f, args, default, other, must=(), fresh=None):
        """f(*args): options among `default` drawn from `other`, or omitted / given their documented value."""
        mon, r = self.mon, self.r
        given = {k: v for k, v in other.items() if k in must or r.random() < .5}
        left = [k for k in default if k not in given]
        mon.ev("options omitted", len(left)); mon.ev("pairs of calls"); mon.ev("kind:" + self.kind)
        args = args if callable(args) else (lambda a=args: a)
        x, a = self.out(f, *args(), **given)
        _, b = self.out(f, *args(), **given, **{k: default[k] for k in left})
        mon.check(not diff(a, b), "%s: options that are omitted have other values than documented" % self.kind, options=left, given=sorted(given), different=diff(a, b)[:6])
        # each on its own
        k = gen.pick(r, sorted(default)) if default else None
        if k is not None and k not in must:
            g = {q: v for q, v in {**default, **other}.items() if q != k}
            _, a = self.out(f, *args(), **g)
            _, b = self.out(f, *args(), **g, **{k: default[k]})
            mon.check(not diff(a, b), "%s: an option that is omitted has another value than documented" % self.kind, option=k, given={q: str(v)[:20] for q, v in g.items()}, different=diff(a, b)[:6])
        mon.key(self.kind, sorted(given), repr(sorted((k, str(v)) for k, v in given.items())))
        return x


def run(case, mon):
    import fibermat as fm
    import matplotlib.pyplot as plt
    r = gen.rng_of(case, 43)
    kind = case["kind"]
    same = Same(mon, r, kind)
    op = case["opts"]
    n = int(r.integers(1, 30))
    matk = dict(n=n, length=float(r.uniform(1, 40)), width=float(r.uniform(.1, 3)), thickness=float(r.uniform(.1, 3)), size=float(r.uniform(40, 100)), theta=float(r.uniform(0, 3)),
                psi=float(r.uniform(0, .3)), shear=float(r.uniform(.1, 10)), tensile=float(r.uniform(1, 1e3)), seed=int(r.integers(1, 1000)))
    if kind == "Mat":
        m = same(fm.Mat, (), MAT, matk, must=("n",) if r.random() < .8 else ())
        if m is not None:
            mon.check(len(fm.Mat()) == 0 and fm.Mat().attrs["size"] == 50., "default set of fibers", got=[len(fm.Mat()), fm.Mat().attrs])
        m = fm.Mat(n)
        v = {k: m[k].values for k in m}
        ok = all((v[k] == x).all() for k, x in zip("lbhGE", (25., 1., 1., 1., np.inf)))
        ok &= all(np.abs(v[k]).max() <= 25. + 1e-9 for k in "xyz") and (v["w"] == 0).all() and (v["u"] >= -1e-12).all() and m.attrs["size"] == 50. and m.attrs["n"] == n
        mon.check(ok, "default fibers are not the documented ones", n=n)
        return
    if kind == "vtk_fiber":
        o = dict(length=matk["length"], width=matk["width"], thickness=matk["thickness"], x=float(r.normal()), y=float(r.normal()), z=float(r.normal()), shear=matk["shear"],
                 tensile=matk["tensile"], index=int(r.integers(0, 9)), r_resolution=int(r.integers(1, 4)), theta_resolution=int(r.integers(3, 12)), z_resolution=int(r.integers(2, 30)))
        a = float(r.uniform(-1.5, 1.5))
        if r.random() < .5:
            o.update(u=np.cos(a), v=np.sin(a))
            same(fm.vtk_fiber, (), {**FIBER, **RES}, o, must=("u", "v"))
        else:
            same(fm.vtk_fiber, (), {**FIBER, **RES}, o)
        f = fm.vtk_fiber()
        p = np.asarray(f.points)
        mon.check(np.allclose(np.ptp(p, axis=0), [25., 1., 1.], atol=1e-9) and np.allclose(p.max(0) + p.min(0), 0, atol=1e-9), "default fiber is not the documented one", got=np.ptp(p, axis=0))
        return
    t = gen.table(case)
    per, thr = case["periodic"], case["threshold"]
    if kind == "Net":
        m = fm.Mat(t)
        same(fm.Net, (m,), dict(periodic=True, pairs=None), dict(periodic=False))
        mon.check(fm.Net(m).attrs["periodic"] is True, "networks are not periodic by default")
        return
    if kind == "Stack":
        # (heights are given to the set: a new one for each call)
        base = fm.Mat(t)
        net = fm.Net(base) if r.random() < .5 else None

        def args():
            return (fm.Mat(t.copy()),)
        d, o = dict(threshold=None), dict(threshold=float(r.uniform(.1, 3)))
        if net is None:
            same(lambda m, **k: [fm.Stack(m, **k), m], args, d, o)
            m = fm.Mat(t.copy())
            a, b = fm.Stack(m), fm.Stack(fm.Mat(t.copy()), fm.Net(fm.Mat(t.copy())))
            mon.check(not diff(snap(a), snap(b)), "an omitted network is not the periodic network of the set", different=diff(snap(a), snap(b)))
        else:
            same(lambda m, **k: [fm.Stack(m, net.copy() if False else net, **k), m], args, d, o)
        return
    if kind == "one dictionary":
        # one set of options for everything: each stage takes its own
        o = {**matk, "psi": 0., "periodic": per, "threshold": thr, **op, "interp_size": int(r.integers(2, 9)), "tol": 1e-6, "errtol": np.inf, "verbose": False, "itermax": gen.pick(r, [0, 1, 2, 5, 40])}
        o["size"] = max(o["size"], 1.1 * o["length"])
        mon.ev("kind:" + kind); mon.ev("pairs of calls"); mon.ev("options omitted", 20)
        m = fm.Mat(**o)
        first = dict(o)
        if r.random() < .5:
            # (the set is as it was generated, whatever options are set afterwards)
            o.update({k: o[k] * float(r.uniform(.5, 2.)) for k in ("length", "width", "thickness", "size", "shear", "tensile")}, n=n + int(r.integers(-1, 3)), seed=3)
        net = fm.Net(m, **o)
        st = fm.Stack(m, net, **o)
        g = fm.Mesh(st, **o)
        K, *kv = fm.stiffness(m, g, **o)
        C, *cv = fm.constraint(m, g, **o)
        out = fm.solve(m, g, **o)
        m2 = fm.Mat(**{k: first[k] for k in MAT})
        mon.check(not diff({k: v for k, v in snap(m).items() if k not in ("column z", "attrs")}, {k: v for k, v in snap(m2).items() if k not in ("column z", "attrs")}), "generation uses options of other stages")
        net2 = fm.Net(m2, periodic=per)
        mon.check(not diff(snap(net), snap(net2)), "the network uses options of other stages", different=diff(snap(net), snap(net2)))
        st2 = fm.Stack(m2, net2, threshold=thr)
        mon.check(not diff(snap(st), snap(st2)) and np.array_equal(m.z, m2.z), "stacking uses options of other stages", different=diff(snap(st), snap(st2)))
        g2 = fm.Mesh(st2)
        ko = {k: o[k] for k in ("lmin", "lmax", "coupling")}
        K2 = fm.stiffness(m2, g2, **ko)[0]
        C2, f2, H2, *_ = fm.constraint(m2, g2)
        mon.check(not diff(snap(K), snap(K2)), "stiffness uses options of other stages")
        mon.check(not diff(snap(C), snap(C2)) and np.array_equal(cv[1], H2), "contacts use options of other stages")
        ref = fm.solve(m2, g2, packing=o["packing"], itermax=o["itermax"], tol=1e-6, errtol=np.inf, interp_size=o["interp_size"], verbose=False, **ko)
        mon.check(not diff(snap(out), snap(ref)), "solving uses options of other stages", different=diff(snap(out), snap(ref))[:6])
        # options of the stiffness reach it through the solver
        mon.check(not diff(snap(ref[0]), snap(K2)), "options given to the solver do not reach the stiffness")
        mon.key(kind, n, repr(sorted(map(str, o.items()))))
        return
    if kind == "Interpolate":
        y = r.normal(size=(int(r.integers(2, 9)), 3))
        same(fm.Interpolate, (y,), dict(size=None), dict(size=int(r.integers(2, 20))))
        same(fm.Interpolate, (y,), dict(size=None, kind="linear"), dict(kind="previous"))
        f = fm.Interpolate(y)
        mon.check(np.array_equal(f(), f(f.t)), "without argument, an interpolation is not evaluated at its samples")
        return
    m, net, st, mesh = gen.pipeline(case)
    if kind == "Mesh":
        same(fm.Mesh, (st,), {}, {})
        a = fm.Mesh()
        mon.check(len(a) == 0 and not diff(snap(a), snap(fm.Mesh(fm.Net(fm.Mat())))), "the default mesh is not the empty one")
        return
    N = len(mesh)
    if kind == "stiffness":
        same(fm.stiffness, (m, mesh), dict(lmin=None, lmax=None, coupling=1.), dict(lmin=op["lmin"] or .01, lmax=case["length"], coupling=float(r.uniform(0, 1))))
        mask = mesh.index.values < mesh.beam.values
        l = mesh.s.values[mesh.beam.values[mask]] - mesh.s.values[mask]
        if len(l) and l.min() > 0:
            K = [fm.stiffness(m, mesh, **k)[0].toarray() for k in ({}, dict(lmin=l.min(), lmax=l.max(), coupling=1.))]
            mon.near(np.where(np.isfinite(K[1]), K[1], -1), np.where(np.isfinite(K[0]), K[0], -1), 1e-9 * np.abs(K[0][np.isfinite(K[0])]).max(initial=1e-300), "default element lengths are not the lengths of the elements")
        return
    ko = {k: op[k] for k in ("lmin", "lmax", "coupling")}
    if kind == "solve":
        L = len(m)
        o = dict(packing=op["packing"], itermax=int(r.integers(0, 40)), solve=lambda A, b: spl.spsolve(A, b), tol=1e-7, errtol=gen.pick(r, [1e-3, np.inf]), interp_size=int(r.integers(2, 12)),
                 verbose=False, perm=r.permutation(2 * N + 3 * (mesh.index <= mesh.constraint.values).sum()), **{k: v for k, v in ko.items() if v is not None})
        same(fm.solve, (m, mesh), SOLVE, o, must=("packing", "lmin", "coupling") if r.random() < .8 else ())
        e = io.StringIO()
        with contextlib.redirect_stderr(e), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = fm.solve(m, mesh, packing=1.2, **ko)
        shown = re.findall(r"(\d+)/(\d+)", e.getvalue())
        if mon.check(bool(shown), "no progress is shown by default"):
            mon.check(shown[-1] == (str(len(out[7].t) - 1), "1000"), "default number of iterations shown", got=shown[-1])
            mon.ev("iterations shown")
        a = fm.solve(m, mesh, verbose=False, **ko)
        mon.check(len(a[7].t) == 1 and a[7](1) == 1., "by default a mat is compacted", steps=len(a[7].t) - 1)
        return
    if kind == "accuracy":
        # residuals around the default error tolerance
        mon.ev("kind:" + kind)
        for e in sorted(10 ** r.uniform(-7.5, -4.5, 4)):
            calls = []

            def crude(A, b):
                x = spl.spsolve(A, b)
                j = int(r.integers(len(x)))
                c = np.linalg.norm(A[:, [j]].toarray())
                if np.isfinite(c) and c > 0 and len(calls) == 1:
                    x[j] += e / c
                calls.append(float(np.linalg.norm(A @ x - b)))
                return x
            out = fm.solve(m, mesh, packing=op["packing"], solve=crude, itermax=3, verbose=False, **ko)
            mon.ev("pairs of calls"); mon.ev("options omitted", 3)
            k = len(out[7].t) - 1
            bad = [i for i, x in enumerate(calls) if x > 1.001e-6]
            good = all(x < .999e-6 for x in calls)
            if bad:
                mon.check(k == bad[0], "a step whose error is beyond the default tolerance is kept", steps=k, errors=calls)
            elif good and np.isfinite(calls).all():
                mon.check(k >= len(calls) - 1, "steps are lost")
                if k == len(calls) - 1 and len(calls) <= 3 and k < 3:
                    # stopped on the last solve: not because of its error
                    o2 = fm.solve(m, mesh, packing=op["packing"], solve=spl.spsolve, itermax=3, errtol=np.inf, verbose=False, **ko)
                    mon.check(len(o2[7].t) - 1 <= k, "a step within the default tolerance is refused", steps=[k, len(o2[7].t) - 1], errors=calls)
            if len(calls) > 1:
                mon.ev("errors on both sides of the default", 1e-8 < calls[1] < 1e-4)
        mon.key(kind, case["seed"])
        return
    if kind == "near contact":
        # clearances around the default contact tolerance
        mon.ev("kind:" + kind)
        g = mesh.copy()
        dz = 10 ** r.uniform(-7.5, -4.5)
        i = int(gen.pick(r, list(range(len(m)))))
        g.loc[g.fiber >= i, "z"] += dz
        g = fm.Mesh(g)
        a, b = fm.solve(m, g, packing=op["packing"], itermax=4, verbose=False, **ko), fm.solve(m, g, packing=op["packing"], itermax=4, verbose=False, tol=1e-6, errtol=1e-6, **ko)
        mon.ev("pairs of calls"); mon.ev("options omitted", 3)
        d = diff(snap(a), snap(b))
        mon.check(not d, "the default contact tolerance is not the documented one", clearance=dz, different=d[:5])
        H = a[4 + 1](0)
        first = a[8](a[8].t[1])[2 * N:] if len(a[7].t) > 1 else None
        if first is not None and np.abs(H - 1e-6).min() > 1e-9:
            mon.check(np.array_equal(first, H <= 1e-6) or (first <= (H <= 1e-6)).all() and ((H <= 1e-6) & ~first).sum() == 0, "contacts closer than the default tolerance are not closed, or others are",
                      clearance=dz, wrong=np.flatnonzero(first != (H <= 1e-6))[:5])
            mon.ev("clearances on both sides of the default", ((H > 1e-7) & (H < 1e-4)).any())
        mon.key(kind, case["seed"])
        return
    if kind == "vtk_mat":
        same(fm.vtk_mat, (m,), dict(func=None, verbose=True, **RES), dict(func=lambda msh, i: None, verbose=False, r_resolution=2, theta_resolution=5, z_resolution=4))
        return
    if kind == "vtk_mesh":
        u = r.normal(size=(2, N)) * .1
        f = r.normal(size=(2, N))
        o = dict(verbose=False, r_resolution=2, theta_resolution=5, z_resolution=int(r.integers(2, 9)), force=f[0])
        d = dict(displacement=None, rotation=None, force=None, moment=None, verbose=True, **RES)
        if r.random() < .5:
            o.update(displacement=u[0], rotation=u[1])
            same(fm.vtk_mesh, (m, mesh), d, o, must=("displacement", "rotation"))
            # an omitted rotation is no rotation
            a, b = same.out(fm.vtk_mesh, m, mesh, displacement=u[0], verbose=False, z_resolution=5)[1], same.out(fm.vtk_mesh, m, mesh, displacement=u[0], rotation=0 * u[1], verbose=False, z_resolution=5)[1]
            mon.check(not diff(a, b), "an omitted rotation is not zero", different=diff(a, b))
        else:
            same(fm.vtk_mesh, (m, mesh), d, o)
        return
    if kind == "plot_system":
        g = mesh.copy()
        g.loc[g.fiber >= int(gen.pick(r, list(range(len(m))))), "z"] += 10 ** r.uniform(-7.5, -4.5)
        g = fm.Mesh(g)
        S = [*fm.stiffness(m, g, **ko)] + [*fm.constraint(m, g)]
        rows = []

        def system(A, b):
            rows.append((A.shape, b))
            return spl.spsolve(A, b)

        def plot(*a, **k):
            rows.clear()
            ax = fm.plot_system(*[x.copy() for x in a], **k)
            d = [(x.get_label(), np.asarray(x.get_xdata()).tolist(), np.asarray(x.get_ydata()).tolist()) for x in ax.lines]
            plt.close(ax.figure)
            return d + list(rows)
        same(plot, S, dict(solve=spl.spsolve, perm=None, ax=None, tol=1e-6), dict(solve=system, perm=r.permutation(S[0].shape[0] + S[5].shape[0]), tol=1e-7), must=("solve",) if r.random() < .7 else ())
        return
