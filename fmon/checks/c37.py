"""C37: results depend on what tables and options say, not on how they are written down."""
import copy
import inspect
import io
import os
import pickle
import subprocess
import sys
import numpy as np
import pandas as pd
import scipy.sparse as sp
from .. import env, gen

ID = "C37"
RULE = ("whole pipelines (13 planar families, 1-18 fibers, solver and exports included) run twice: as the constructors made the tables, and with the tables of "
        "every stage written down otherwise (columns in another order, additional columns, plain frames, copies, pickles, text files, other memory layout, "
        "whole numbers as integers), the options given otherwise (by position or name, numpy scalars, unknown options added), or in another process (other "
        "hash seed, language, time zone and directory); tables compared by column, matrices, histories and exports by value; non-trivial = new pipeline and variant with a connection")
VARIANTS = ["columns", "extra", "plain", "copy", "pickle", "csv", "fortran", "index", "integers", "position", "names", "scalars", "unknown", "all"]
NEED = dict({"variant:" + v: 8 for v in VARIANTS}, **{"pipelines": 150, "solved": 100, "exports": 100, "processes": 2, "connections": 1000, "results copied": 50})
ASSUMPTIONS = ["tables passed by name (by position, another kind of DataFrame is a conversion)", "compactions are compared if matrices are bitwise equal (else they may branch)"]


def cases(rng, tier):
    k = 350 if tier == "quick" else 2660
    for i in range(k):
        s = gen.solve_spec(rng, 1, 18)
        s["opts"]["itermax"] = 12
        s["variant"] = VARIANTS[i % len(VARIANTS)]
        if s["variant"] == "integers" and rng.random() < .5:
            s["fam"] = "lattice"
        if s["variant"] == "integers":
            # (nodes may be at the same place)
            s["opts"]["lmin"] = s["opts"]["lmin"] or .001 * s["length"]
        yield s
    for i in range(3 if tier == "quick" else 20):
        s = gen.solve_spec(rng, 8, 18)
        s["opts"]["itermax"] = 12
        s["variant"] = "process"
        yield s


# -- other ways to write the same table -------------------------------------
def same_attrs(t, like):
    t.attrs = copy.deepcopy(dict(like.attrs))
    return t


def frame(t):
    return same_attrs(pd.DataFrame({c: t[c].values.copy() for c in t.columns}, index=t.index), t)


def rewrite(t, kind, r):
    """The same table, otherwise."""
    if kind == "columns":
        return type(t)(same_attrs(frame(t)[list(r.permutation(t.columns))], t))
    if kind == "extra":
        f = frame(t)
        n = len(f)
        # (names of no column of the library)
        new = {"colour": np.array(["red", "blue"])[r.integers(0, 2, n)], "batch": r.integers(0, 9, n), "used": r.random(n) < .5, "weight": r.normal(size=n),
               "note": np.array([None] * n, object), "missing": np.full(n, np.nan)}
        for k in list(r.permutation(sorted(new)))[:int(r.integers(1, 5))]:
            if k not in f.columns:
                f.insert(int(r.integers(0, f.shape[1] + 1)), k, new[k])
        return type(t)(same_attrs(f, t))
    if kind == "plain":
        return frame(t)
    if kind == "copy":
        c = gen.pick(r, [copy.copy, copy.deepcopy, lambda x: x.copy(), lambda x: x[:]])(t)
        return c
    if kind == "pickle":
        return pickle.loads(pickle.dumps(t, protocol=int(r.integers(2, 6))))
    if kind == "csv":
        f = pd.read_csv(io.StringIO(pd.DataFrame(t).to_csv(float_format="%.17g")), index_col=0, float_precision="round_trip")
        for c in t.columns:
            if t[c].dtype.kind == "f":
                f[c] = f[c].astype(float)
        return type(t)(same_attrs(f, t))
    if kind == "fortran":
        f = pd.DataFrame(np.asfortranarray(t.values.astype(float)), columns=list(t.columns), index=t.index)
        for c in t.columns:
            if t[c].dtype != float:
                f[c] = f[c].astype(t[c].dtype)
        return type(t)(same_attrs(f, t))
    if kind == "index":
        f = frame(t)
        f.index = pd.Index(np.arange(len(f)), dtype=gen.pick(r, ["int64", "int32"]), name=gen.pick(r, [None, "label", "node"]))
        a = dict(t.attrs)
        # (attributes in another order, with others)
        f.attrs = {k: a[k] for k in list(r.permutation(sorted(a)))}
        f.attrs.update({"author": "me", "created": 2026} if r.random() < .5 else {})
        return type(t)(f)
    if kind == "integers":
        f = frame(t)
        for c in f.columns:
            if f[c].dtype.kind == "f" and len(f) and np.isfinite(f[c]).all() and (f[c] == np.rint(f[c])).all():
                f[c] = f[c].astype(int)
        a = dict(t.attrs)
        f = type(t)(same_attrs(f, t))
        if a["size"] == int(a["size"]):
            f.attrs["size"] = int(a["size"])
        return f
    return t


def scalar(v, r):
    """The same value as another type of number."""
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, bool):
        return np.bool_(v)
    if isinstance(v, int):
        return np.int64(v)
    if float(v) == int(v) if np.isfinite(v) else False:
        return gen.pick(r, [lambda: int(v), lambda: np.int64(v), lambda: np.float64(v)])()
    return np.float64(v)


class Written:
    def __init__(self, kind, r):
        self.kinds = [kind] if kind != "all" else [gen.pick(r, ["columns", "extra", "plain", "fortran", "index"]), gen.pick(r, ["copy", "pickle", "names"]), "unknown"]
        self.r = r

    def table(self, t):
        for k in self.kinds:
            t = rewrite(t, k, self.r)
        return t

    def call(self, f, sig, *a, **k):
        """Call f(*a, **k), whose documented arguments are sig."""
        k = dict(zip(sig, a), **k)
        if "scalars" in self.kinds:
            k = {x: scalar(y, self.r) if not isinstance(y, (pd.DataFrame, np.ndarray)) and not callable(y) else y for x, y in k.items()}
        if "unknown" in self.kinds:
            k.update({x: self.r.normal() for x in ("colour", "unknown_option", "thetas")})
        names = [x for x in sig if x in k]
        p = 0
        if "position" in self.kinds:
            # as many leading documented arguments as given (tables that are not conversions)
            while p < len(sig) and sig[p] in k:
                p += 1
        return f(*[k.pop(x) for x in names[:p]], **k)


NETS, STACKS = ("mat", "periodic", "pairs"), ("mat", "net", "threshold")
SOLVE = ("mat", "mesh", "packing", "itermax", "solve", "perm", "tol", "errtol", "interp_size", "verbose")
EXPORT = ("mat", "mesh", "displacement", "rotation", "force", "moment", "verbose")


def pipeline(case, w):
    from fibermat import Mat, Net, Stack, Mesh, stiffness, constraint, solve, vtk_mat, vtk_mesh
    out = {}
    t = gen.table(case)
    if case["variant"] == "integers":
        # (whole heights of fibers of any thickness)
        t["z"] = np.rint(t.z.values)
    m = w.table(Mat(t))
    n = w.table(w.call(Net, NETS, m, case["periodic"]))
    out["net"] = tab(n, ["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"])
    s = w.table(w.call(Stack, STACKS, m, n, case["threshold"]))
    out["stack"] = tab(s, ["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"])
    out["heights"] = np.array(m.z, float)
    g = w.table(w.call(Mesh, ("net",), s))
    out["mesh"] = tab(g, ["fiber", *"sxyz", "beam", "constraint"])
    for k, o in (("net", n), ("stack", s), ("mesh", g)):
        out[k + " attributes"] = np.array([float(o.attrs[x]) for x in ("n", "size", "periodic")])
    o = {k: case["opts"][k] for k in ("lmin", "lmax", "coupling")}
    K, *v = w.call(stiffness, ("mat", "mesh", "lmin", "lmax", "coupling"), m, g, **o)
    C, *q = w.call(constraint, ("mat", "mesh"), m, g)
    for k, a in (("stiffness", K), ("constraints", C)):
        a = sp.csr_matrix(a)
        a.sort_indices()
        out[k] = a.toarray()
    out["vectors"] = np.concatenate([np.asarray(a, float) for a in (*v, *q)])
    p = np.arange(K.shape[0] + C.shape[0])
    try:
        res = w.call(solve, SOLVE, m, g, packing=case["opts"]["packing"], itermax=12, solve=sp.linalg.spsolve, perm=p, tol=1e-6, errtol=1e-6,
                     interp_size=case["seed"] % 2 * 7 or None, verbose=False, **o)
    except ZeroDivisionError:
        return m, n, s, g, out, None
    for i in (2, 3, 4, 5, 6, 7):
        out["history %d" % i] = np.array([res[i](t) for t in (0., .31, .77, 1.)])
    out["history samples"] = np.array([len(res[i].t) for i in range(2, 10)])
    u, f = res[2](1).reshape(-1, 2).T, (res[3](1) @ res[1]).reshape(-1, 2).T
    for k, b in (("exported set", w.call(vtk_mat, ("mat", "func", "verbose"), m, None, False)),
                 ("exported mesh", w.call(vtk_mesh, EXPORT, m, g, *u, *f, False))):
        out[k + " points"] = np.asarray(b.points, float)
        for x in b.point_data.keys():
            out[k + " " + x] = np.asarray(b[x], float)
    return m, n, s, g, out, res


def tab(t, cols):
    return np.array([t[c].values.astype(float) for c in cols])


def compare(mon, a, b, kind, exact):
    """Same results (histories and what depends on them: only if the systems are the same numbers)."""
    missing = set(a) ^ set(b)
    if not mon.check(not missing, "results depend on the way of writing: %s" % kind, results=sorted(missing)):
        return
    branch = not exact and not all(np.array_equal(a[k], b[k]) for k in ("stiffness", "constraints", "vectors") if k in a)
    for k in a:
        if branch and (k.startswith("history") or k.startswith("exported mesh")):
            mon.note("systems differ by rounding")
            continue
        scale = np.abs(a[k][np.isfinite(a[k])]).max(initial=0)
        with np.errstate(all="ignore"):
            mon.check(a[k].shape == b[k].shape and (np.array_equal(a[k], b[k], equal_nan=True) or not exact and ((a[k] == b[k]) | (np.abs(a[k] - b[k]) <= 1e-7 * scale)
                      | np.isnan(a[k]) & np.isnan(b[k])).all()), "the %s depends on the way of writing: %s" % (k, kind), shapes=(a[k].shape, b[k].shape),
                      largest=float(np.nanmax(np.abs(a[k] - b[k]), initial=0)) if a[k].shape == b[k].shape else None, scale=scale)


def run(case, mon):
    kind = case["variant"]
    if kind == "process":
        return process(case, mon)
    a = pipeline(case, Written("none", None))
    r = gen.rng_of(case, 37)
    w = Written(kind, r)
    b = pipeline(case, w)
    mon.ev("variant:" + kind)
    mon.ev("pipelines")
    mon.ev("solved", a[5] is not None)
    mon.ev("exports", 2 * (a[5] is not None))
    compare(mon, a[4], b[4], kind, False)
    c = int((a[1].A != a[1].B).sum())
    mon.ev("connections", c)
    if kind in ("copy", "pickle") and a[5] is not None:
        # results, too
        f = (lambda x: pickle.loads(pickle.dumps(x))) if kind == "pickle" else gen.pick(r, [copy.copy, copy.deepcopy])
        for i in range(2, 10):
            x, y = a[5][i], f(a[5][i])
            t = np.r_[0., r.random(3), 1.]
            mon.check(all(np.array_equal(x(s), y(s), equal_nan=True) and x(s).dtype == y(s).dtype for s in t) and np.array_equal(x(), y(), equal_nan=True),
                      "a copy of a result is not the same result", result=i)
            mon.ev("results copied")
        for x in a[:4]:
            y = f(x)
            mon.check(set(y.columns) == set(x.columns) and all(np.array_equal(x[c].values, y[c].values) for c in x.columns) and dict(x.attrs) == dict(y.attrs),
                      "a copy of a table is not the same table", table=type(x).__name__)
            mon.check(type(x)(y).check() is True, "a copy of a table is refused", table=type(x).__name__)
            if kind == "pickle":
                mon.check(type(y) is type(x), "another kind of table was read back", got=str(type(y)))
            else:
                # a copy that shares nothing: neither values nor attributes
                y = gen.pick(r, [copy.deepcopy, lambda z: z.copy()])(x)
                y.attrs["n"] = -7
                mon.check(x.attrs["n"] != -7, "a copy shares the attributes of the table", table=type(x).__name__)
    if c:
        mon.key(kind, np.round(a[4]["net"], 6).tobytes())
        mon.sample = {"variant": w.kinds, "connections": c, "entries compared": int(sum(np.size(x) for x in a[4].values()))}


def process(case, mon):
    a = pipeline(case, Written("none", None))[4]
    code = ("import sys, json, pickle; sys.path.insert(0, %r); from fmon import env; env.load(); from fmon.checks import c37; import warnings; warnings.simplefilter('ignore')\n"
            "case = json.loads(sys.argv[1]); r = c37.pipeline(case, c37.Written('none', None))[4]\n"
            "sys.stdout.flush(); open(sys.argv[2], 'wb').write(pickle.dumps(r))" % env.VERIF)
    import json
    path = os.path.join(env.scratch(), "process%d.pickle" % os.getpid())
    try:
        p = subprocess.run([sys.executable, "-c", code, json.dumps(case), path], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=100, cwd=env.scratch(),
                           env=dict(os.environ, PYTHONHASHSEED=str(case["seed"] % 1000), LANG="C", TZ="Asia/Tokyo"))
        if not mon.check(p.returncode == 0 and os.path.exists(path), "the pipeline fails in another process", error=p.stderr[-500:]):
            return
        with open(path, "rb") as f:
            b = pickle.load(f)
    finally:
        if os.path.exists(path):
            os.unlink(path)
    mon.ev("processes")
    compare(mon, a, b, "another process", False)
    mon.key("process", a["net"].tobytes())
