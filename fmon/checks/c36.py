"""C36: the shipped programs and examples run, and show, save and print the state they computed."""
import contextlib
import inspect
import json
import os
import re
import runpy
import shutil
import sys
import tempfile
import numpy as np
import pandas as pd
from .. import env, gen

ID = "C36"
RULE = ("main.py, both scripts, the demonstration of every module, the examples of README, documentation and docstrings, and the tutorial notebook (with its own settings and with random ones, cells run in "
        "order as a user would) executed in an empty directory with recorders in place of windows; the two large scripts with the number of solver "
        "steps capped and the export replaced by a small body; every figure, shown body and saved file compared with the recorded computation; "
        "non-trivial = new program or new notebook settings")
NEED = {"programs": 19, "notebooks": 5, "cells": 100, "figures": 40, "fiber axes": 3000, "connections drawn": 2000, "solves": 12, "bodies shown": 25,
        "files": 8, "residuals": 15, "docstring examples": 20, "documented numbers": 400, "examples": 9, "fibers on the pattern": 500, "matrices": 6}
ASSUMPTIONS = ["programs show figures with matplotlib and bodies with the plot method of pyvista, and save under outputs/"]

DOCUMENTS = ["README.md"] + ["docs/api/%s.rst" % x for x in ("mat", "net", "mesh", "interpolation", "model", "solver", "render")]
PROGRAMS = ["main.py", "scripts/square.py", "scripts/logo.py", "widgets.py"] + [
    "src/fibermat/%s.py" % x for x in ("mat", "net", "mesh", "interpolation", "model", "solver", "render", "widgets")]


def cases(rng, tier):
    for p in PROGRAMS:
        yield {"program": p, "seed": 0}
    for p in DOCUMENTS:
        yield {"document": p, "seed": 0}
    yield {"docstrings": 1, "seed": 0}
    yield {"notebook": {}, "seed": 0}
    k = 7 if tier == "quick" else 160
    for i in range(k):
        s = dict(n=int(rng.integers(8, 40)), size=float(gen.pick(rng, [20., 35., 50.])), tensile=float(10 ** rng.uniform(1, 5)),
                 seed=int(rng.integers(1000)), periodic=bool(rng.integers(2)), threshold=gen.pick(rng, [1., 5., 10., 50.]),
                 lmin=gen.pick(rng, [.01, .1]), coupling=gen.pick(rng, [.5, .9, .99]), packing=float(gen.pick(rng, [1.5, 3., 4.])),
                 interp_size=gen.pick(rng, [2, 20, 100]), length=float(gen.pick(rng, [12., 18., 20.])), width=gen.pick(rng, [.5, 1., 2.]),
                 thickness=gen.pick(rng, [.2, .5]), theta=float(gen.pick(rng, [.5, 1.])))
        yield {"notebook": s, "seed": int(rng.integers(2 ** 31))}


class Recorder:
    """What a program computed, showed and saved."""

    def __init__(self, small=False, shell=False):
        self.small, self.shell = small, shell
        self.figures, self.bodies, self.solves, self.exports, self.shown, self.out = [], [], [], [], [], []

    @contextlib.contextmanager
    def install(self):
        import fibermat
        import pyvista as pv
        import IPython
        import IPython.display
        from matplotlib import pyplot as plt
        undo = []

        def put(o, k, v):
            undo.append((o, k, o.__dict__.get(k, undo)))
            setattr(o, k, v)
        solve, vtk_mesh, vtk_fiber = fibermat.solve, fibermat.vtk_mesh, fibermat.vtk_fiber

        def solve_(*a, **k):
            b = inspect.signature(solve).bind(*a, **k)
            b.apply_defaults()
            mat, mesh = b.arguments["mat"].copy(), b.arguments["mesh"].copy()
            if self.small:
                if "itermax" in inspect.signature(solve).parameters:
                    k = dict(k, itermax=4)
            r = solve(*a, **k)
            self.solves.append((mat, mesh, r, b.arguments))
            return r

        def vtk_mesh_(*a, **k):
            b = inspect.signature(vtk_mesh).bind(*a, **k)
            b.apply_defaults()
            if self.small:
                r = vtk_fiber(length=3., width=2., thickness=1., z=7.)
                for i, name in enumerate(("displacement", "rotation", "curvature", "force", "torque")):
                    r[name] = np.linspace(0, 1 + i, r.n_points)
            else:
                r = vtk_mesh(*a, **k)
            self.exports.append(({x: np.array(y) if isinstance(y, np.ndarray) else y for x, y in b.arguments.items()}, r))
            return r
        new = {id(solve): solve_, id(vtk_mesh): vtk_mesh_}
        for name, m in list(sys.modules.items()):
            if name.split(".")[0] == "fibermat":
                for k, v in list(vars(m).items()):
                    if id(v) in new:
                        put(m, k, new[id(v)])

        def show(*a, **k):
            for i in plt.get_fignums():
                self.figures.append(figure(plt.figure(i)))
            plt.close("all")
        put(plt, "show", show)

        def plot(body, *a, **k):
            self.bodies.append((body.copy(), k))
        for c in (pv.DataSet, *pv.DataSet.__subclasses__(), pv.UnstructuredGrid, pv.PolyData):
            if "plot" in c.__dict__:
                put(c, "plot", plot)

        def display(*a, **k):
            self.shown.extend(a)

        class Shell:
            def __getattr__(self, k):
                return Shell()

            def __call__(self, *a, **k):
                return None
        put(IPython.display, "display", display)
        if self.shell:
            put(IPython, "get_ipython", Shell)
        try:
            yield self
        finally:
            for o, k, v in reversed(undo):
                if v is undo:
                    delattr(o, k)
                else:
                    setattr(o, k, v)
            plt.close("all")


def figure(fig):
    """Lines of each axes of a figure: (points, marker), and its limits."""
    out = []
    for ax in fig.axes:
        lines = []
        for a in ax.lines:
            d = a.get_data_3d() if hasattr(a, "get_data_3d") else a.get_data()
            lines.append((np.array([np.ravel(x).astype(float) for x in d]).T, a.get_marker()))
        out.append({"three": hasattr(ax, "get_zlim"), "lines": lines, "xlim": ax.get_xlim(), "ylim": ax.get_ylim()})
    return out


@contextlib.contextmanager
def place():
    """An empty working directory, with the arguments, path and modules of a new process."""
    d = tempfile.mkdtemp(prefix="fmon36.", dir=env.scratch())
    old, argv, path, mods = os.getcwd(), sys.argv, list(sys.path), set(sys.modules)
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        sys.argv, sys.path[:] = argv, path
        for k in set(sys.modules) - mods:
            if k == "widgets":
                del sys.modules[k]
        shutil.rmtree(d, ignore_errors=True)


def segments(a, b):
    """Unordered multiset of segments, comparable."""
    s = np.concatenate([np.reshape(a, (-1, 3)), np.reshape(b, (-1, 3))], axis=1)
    flip = np.array([tuple(r[3:]) < tuple(r[:3]) for r in s.tolist()], bool) if len(s) else np.zeros(0, bool)
    s[flip] = s[flip][:, [3, 4, 5, 0, 1, 2]]
    return s[np.lexsort(np.round(s, 5).T[::-1])] if len(s) else s


def axes_of(mat):
    x, d = mat[[*"xyz"]].values.astype(float), mat[[*"uvw"]].values * (.5 * mat.l.values)[:, None]
    return segments(x - d, x + d)


def contains(mon, drawn, expected, what):
    """Each expected segment is drawn (and nothing else) up to rounding."""
    if not mon.check(len(drawn) == len(expected), what + ": number of lines", drawn=len(drawn), expected=len(expected)):
        return
    if len(drawn):
        from scipy.spatial import cKDTree
        d, j = cKDTree(expected).query(drawn)
        mon.check(d.max() < 1e-6, what + ": lines elsewhere", distance=d.max())
        d, j = cKDTree(drawn).query(expected)
        mon.check(d.max() < 1e-6, what + ": lines missing", distance=d.max())


def elements(mesh, mask):
    p = mesh[[*"xyz"]].values.astype(float)
    i, j = mesh.index.values[mask], mesh.beam.values[mask]
    return segments(p[i], p[j])


def links(mesh):
    p = mesh[[*"xyz"]].values.astype(float)
    i, k = mesh.index.values, mesh.constraint.values
    m = mesh.z.values < mesh.z.values[k]
    return segments(p[i[m]], p[k[m]])


def view(mon, fig, mat=None, pairs=None, mesh=None, size=None, what=""):
    """A three-dimensional figure shows these fibers or elements, and these connections."""
    ax = next((a for a in fig if a["three"]), None)
    if not mon.check(ax is not None, what + ": no 3D view"):
        return
    mon.ev("figures")
    full = [(p, m) for p, m in ax["lines"] if len(p) == 2]
    solid = [p for p, m in full if m in ("None", "", " ", None)]
    dots = [p for p, m in full if m == "o"]
    a = segments([p[0] for p in solid], [p[1] for p in solid])
    b = segments([p[0] for p in dots], [p[1] for p in dots])
    if mat is not None:
        contains(mon, a, axes_of(mat), what + ": fibers")
        mon.ev("fiber axes", len(mat))
    if mesh is not None:
        e = mesh.s.values < mesh.s.values[mesh.beam.values]
        contains(mon, a, elements(mesh, e), what + ": elements")
        contains(mon, b, links(mesh), what + ": connections")
        mon.ev("fiber axes", len(a))
    if pairs is not None:
        contains(mon, b, pairs, what + ": connections")
    mon.ev("connections drawn", len(b))
    if size is not None:
        mon.near([ax["xlim"], ax["ylim"]], [[-.5 * size, .5 * size]] * 2, 1e-9 * size, what + ": limits of the view")


def rows(net, mask):
    p = net[["xA", "yA", "zA", "xB", "yB", "zB"]].values.astype(float)[mask]
    return segments(p[:, :3], p[:, 3:])


def residuals(mon, text, what, tol=1e-6):
    v = [float(x) for x in re.findall(r"^\s*(nan|[-+0-9.eE]+)\s*$", text, re.M)]
    mon.ev("residuals", len(v))
    return v


def state(mon, rec, what):
    """The last exported state is the last computed one."""
    if not mon.check(rec.solves, what + ": nothing was solved"):
        return
    mat, mesh, r, args = rec.solves[-1]
    K, C, u, f = r[:4]
    mon.ev("solves", len(rec.solves))
    a, body = rec.exports[-1]
    mon.check(a["mat"] is not None and len(a["mat"]) == len(mat) and len(a["mesh"]) == len(mesh), what + ": another set is exported")
    U, N = u(1).reshape(-1, 2), (f(1) @ C).reshape(-1, 2)
    for k, v in (("displacement", U[:, 0]), ("rotation", U[:, 1]), ("force", N[:, 0])):
        got = a.get(k)
        mon.near(np.zeros(0) if got is None else got, v, 1e-9 * (1 + np.abs(v).max(initial=0)), what + ": the exported %s is not the final one" % k)
    for t in (0., .5, 1.):
        mon.check(np.isfinite(r[6](t)), what + ": undefined wall position")
    return a, body


def saved(mon, d, body, what):
    import pyvista as pv
    files = [os.path.join(x, y) for x, _, z in os.walk(d) for y in z if y.endswith((".vtk", ".vtu", ".vtp"))]
    if not mon.check(len(files) == 1, what + ": one file is saved", files=files):
        return
    mon.check(os.path.basename(os.path.dirname(files[0])) == "outputs", what + ": saved elsewhere", file=files[0])
    back = pv.read(files[0])
    mon.ev("files")
    mon.near(back.points, body.points, 1e-5 * (1 + np.abs(body.points).max()), what + ": saved points")
    for k in body.point_data.keys():
        if mon.check(k in back.point_data.keys(), what + ": a field is not saved", field=k):
            x = np.asarray(body[k], float)
            mon.near(back[k], x, 1e-5 * (1e-12 + np.abs(x[np.isfinite(x)]).max(initial=0)), what + ": saved field %s" % k)


def same_body(mon, a, b, what):
    if mon.check(a.n_points == b.n_points and a.n_cells == b.n_cells, what + ": another body", points=(a.n_points, b.n_points)):
        mon.near(a.points, b.points, 1e-5 * (1 + np.abs(b.points).max(initial=0)), what + ": another shape")


def run(case, mon):
    np.random.seed(case["seed"] % 2 ** 32)
    for k, fun in (("notebook", notebook), ("document", document), ("docstrings", docstrings), ("program", program)):
        if k in case:
            fun(case, mon)


def examples(path):
    """Python examples of a README or of a page of the documentation."""
    with open(os.path.join(env.REPO, path)) as f:
        text = f.read()
    if path.endswith(".md"):
        return re.findall(r"^```python\n(.*?)^```", text, re.M | re.S)
    out = []
    for m in re.finditer(r"^\.\. code-block:: python\n", text, re.M):
        lines = []
        for x in text[m.end():].split("\n"):
            if x.strip() and not x.startswith("    "):
                break
            lines.append(x[4:])
        out.append("\n".join(lines))
    return out


def document(case, mon):
    p = case["document"]
    blocks = examples(p)
    mon.ev("examples", len(blocks))
    for i, text in enumerate(blocks):
        path = os.path.join(env.REPO, p)

        def play():
            g = {"__name__": "__main__"}
            exec(compile("\n" + text, path, "exec"), g)
            return g
        execute(mon, "%s, example %d" % (p, i + 1), play, Recorder(), "main" if p == "README.md" else os.path.basename(p)[:-4])
    mon.key(p)
    mon.sample = {"document": p, "examples": len(blocks)}


def drawing(path):
    """The pattern of zeros and ones written in a script."""
    import ast
    with open(path) as f:
        tree = ast.parse(f.read())
    for e in ast.walk(tree):
        if isinstance(e, ast.List) and len(e.elts) > 5 and all(isinstance(x, ast.List) and len(x.elts) > 20 for x in e.elts):
            return np.array(ast.literal_eval(e), dtype=bool)


def program(case, mon):
    p = case["program"]
    path = os.path.join(env.REPO, p)

    def play():
        sys.argv = [path]
        sys.path.insert(0, os.path.dirname(path))
        return runpy.run_path(path, run_name="__main__")
    rec = Recorder(p.startswith("scripts"), p == "widgets.py")
    name = "main" if p == "main.py" or p.startswith("scripts") else os.path.basename(p)[:-3]
    execute(mon, p, play, rec, name)
    if p == "main.py":
        mon.check(any(not a["three"] for f in rec.figures for a in f), "main.py: the system is not shown")
    pattern = drawing(path) if p == "scripts/logo.py" else None
    if pattern is not None and rec.solves:
        # read from the top, one unit of length per character
        m, (a, b) = rec.solves[-1][0], np.shape(pattern)
        i, j = np.floor(6 - m.y.values).astype(int), np.floor(m.x.values + b // 2).astype(int)
        ok = (i >= 0) & (i < a) & (j >= 0) & (j < b)
        ok[ok] = pattern[i[ok], j[ok]]
        mon.check(ok.all() and len(ok) > 100, p + ": fibers are not on the pattern", outside=int((~ok).sum()))
        mon.ev("fibers on the pattern", int(ok.sum()))
    mon.key(p)
    mon.sample = {"program": p, "figures": len(rec.figures), "bodies": len(rec.bodies), "solves": len(rec.solves)}


def execute(mon, what, play, rec, name):
    import io
    import fibermat
    vtk_mesh, vtk_mat, vtk_fiber = fibermat.vtk_mesh, fibermat.vtk_mat, fibermat.vtk_fiber
    out = io.StringIO()
    with place() as d, rec.install(), contextlib.redirect_stdout(out):
        try:
            g = play()
        except SystemExit as e:
            g = {}
            mon.check(e.code in (None, 0), what + ": ends with an error", code=str(e.code))
        mon.ev("programs")
        if name == "main":
            if mon.check(rec.exports, what + ": nothing is exported"):
                a, body = state(mon, rec, what) or (None, None)
                if body is not None:
                    saved(mon, d, body, what)
                    for b, k in rec.bodies[-1:]:
                        same_body(mon, b, body, what + ": shown body")
    for v in residuals(mon, out.getvalue(), what):
        mon.check(v <= 1e-6, what + ": the system at rest is not solved", residual=v)
    after(mon, g, rec, (0, 0, 0, 0), out.getvalue(), None, vtk_fiber, vtk_mat, what)
    demo(name, g, rec, out.getvalue(), mon, vtk_mesh, what)


def numbers(text):
    return [float(x) for x in re.findall(r"(?<![\w.])[-+]?(?:inf|nan|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)(?![\w.]*\w)", text)]


def docstrings(case, mon):
    """Examples of docstrings print what the docstrings show."""
    import doctest
    import io
    import fibermat
    parser = doctest.DocTestParser()
    with place(), pd.option_context("display.width", 250, "display.max_columns", 60, "display.max_rows", 60):
        for k in ("Mat", "Net", "Stack", "Mesh", "Interpolate", "stiffness", "constraint", "solve", "vtk_mat", "vtk_mesh", "Settings"):
            g = dict(vars(fibermat), __name__="__main__")
            for e in parser.get_examples(getattr(fibermat, k).__doc__ or ""):
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    exec(compile(e.source, os.path.join(env.REPO, "src", "fibermat", "docstring of " + k), "single"), g)
                mon.ev("docstring examples")
                if e.want.strip():
                    a, b = numbers(out.getvalue()), numbers(e.want.replace("<BLANKLINE>", ""))
                    mon.near(a, b, 2e-6 * np.abs(np.nan_to_num(b, posinf=0, neginf=0)) + 1e-6, "docstring of %s: the example prints something else" % k)
                    mon.ev("documented numbers", len(b))
    mon.key("docstrings")


def demo(name, g, rec, out, mon, vtk_mesh, what):
    if name in ("mat", "net", "mesh", "interpolation", "model", "solver"):
        if not mon.check(rec.figures, what + ": no figure"):
            return
    mat, net, mesh = (g[k] if isinstance(g.get(k), pd.DataFrame) else None for k in ("mat", "net", "mesh"))
    if name == "solver" and mesh is not None and "u" in g:
        z = mesh.z.values - g["u"](1)[::2]
        c = mesh.constraint.values
        h = mat.h.values[mesh.fiber.values]
        lo = mesh.index.values < c
        gap = z[c[lo]] - z[lo.nonzero()[0]] - .5 * (h[lo] + h[c[lo]])
        mon.check(gap.min(initial=0) > -1e-5, what + ": the deformed mesh is not the mesh and its displacements", gap=gap.min(initial=0))
        mon.near((mesh.z.values + .5 * h).max(), float(g["Z"](1)), 1e-4 * float(g["Z"](1)), what + ": the deformed mesh does not reach the wall")
        mon.ev("solves")
    if name == "model":
        mon.check(any(not a["three"] for f in rec.figures for a in f), what + ": the system is not shown")
        num = [np.array(numbers(t.replace("[", " ").replace("]", " "))) for t in re.findall(r"(\[\[.*?\]\])", out, re.S)]
        mon.ev("matrices", len(num))
        for t, k in zip(num, ([1, np.inf, -np.inf], [1, 4 / 3, -5 / 6], [12, 4, 2])):
            if t.size == 16:
                c = k[0] / 2
                e = np.array([[k[0], c, -k[0], c], [c, k[1], -c, k[2]], [-k[0], -c, k[0], -c], [c, k[2], -c, k[1]]])
                mon.near(t.reshape(4, 4), e, 1e-6 * k[0], what + ": documented matrix")
    if name == "render":
        mon.check(len(rec.bodies) >= 4, what + ": bodies are not shown", shown=len(rec.bodies))
        if "u" in g and rec.bodies:
            u, f, C = g["u"], g["f"], g["C"]
            b = vtk_mesh(mat, mesh, *u(1).reshape(-1, 2).T, *(f(1) @ C).reshape(-1, 2).T, verbose=False)
            same_body(mon, rec.bodies[-1][0], b, what)
            mon.ev("solves")
    if name == "interpolation":
        for ax in rec.figures[0]:
            for p, m in ax["lines"]:
                if m == "o" and len(p) > 2:
                    mon.near(p[:, 1], np.sin(p[:, 0]), 1e-9, what + ": nodes are not on the curve")
                    mon.ev("figures")


def notebook(case, mon):
    import io
    import fibermat
    vtk_mesh, vtk_fiber, vtk_mat = fibermat.vtk_mesh, fibermat.vtk_fiber, fibermat.vtk_mat
    path = os.path.join(env.REPO, "jupyter-notebook.ipynb")
    with open(path) as fh:
        cells = ["".join(c["source"]) for c in json.load(fh)["cells"] if c["cell_type"] == "code"]
    rec = Recorder(shell=True)
    g = {"__name__": "__main__"}
    chosen = dict(n=100, length=None, packing=3, periodic=True)
    out = io.StringIO()
    with place() as d, rec.install(), contextlib.redirect_stdout(out):
        sys.path.insert(0, env.REPO)
        sys.modules.pop("widgets", None)
        for i, text in enumerate(cells):
            lines = []
            for x in text.split("\n"):
                m = re.match(r"\s*!\s*mkdir\s+(?:-p\s+)?(\S+)", x)
                if m:
                    os.makedirs(os.path.join(d, os.path.basename(m.group(1))), exist_ok=True)
                    x = ""
                elif re.match(r"\s*[%!?]|.*\?\s*$", x) and not x.lstrip().startswith("#"):
                    x = ""
                lines.append(x)
            before = len(rec.figures), len(rec.bodies), len(rec.solves), out.tell()
            exec(compile("\n".join(lines), path, "exec"), g)
            mon.ev("cells")
            after(mon, g, rec, before, out.getvalue()[before[3]:], case, vtk_fiber, vtk_mat)
            if callable(g.get("inputs")) and "ready" not in g and "inputs(" in text:
                g["ready"] = True
                g["inputs"](**case["notebook"])
        if mon.check(rec.exports, "notebook: nothing is exported"):
            s = state(mon, rec, "notebook")
            if s:
                saved(mon, d, s[1], "notebook")
                if rec.bodies:
                    same_body(mon, rec.bodies[-1][0], s[1], "notebook: shown body")
    mon.ev("notebooks")
    mon.check(len(rec.figures) >= 5, "notebook: figures are missing", figures=len(rec.figures))
    for k, v in case["notebook"].items():
        if k in ("n", "size", "periodic"):
            mon.check(g["mat" if k == "n" else "mesh"].attrs[k] == v, "notebook: another set than chosen", option=k)
    mon.key(sorted(case["notebook"].items()))
    mon.sample = {"cells": len(cells), "figures": len(rec.figures), "bodies": len(rec.bodies), "settings": case["notebook"]}


def after(mon, g, rec, before, out, case, vtk_fiber, vtk_mat, what="notebook"):
    """Monitor of one cell: what it showed is what the session holds."""
    # (the names of the modules are imported as well)
    mat, net, stack, mesh = (g[k] if isinstance(g.get(k), pd.DataFrame) else None for k in ("mat", "net", "stack", "mesh"))
    for fig in rec.figures[before[0]:]:
        three = any(a["three"] for a in fig)
        if three and mesh is not None:
            view(mon, fig, mesh=mesh, size=mesh.attrs["size"], what=what + ", mesh")
        elif three and stack is not None:
            e = stack[stack.A < stack.B].reset_index(drop=True)
            force = np.asarray(g["force"]) if "force" in g else None
            view(mon, fig, mat=mat, pairs=None if force is None else rows(e, ~np.isclose(force, 0)), size=mat.attrs["size"], what=what + ", stack")
        elif three and net is not None:
            view(mon, fig, mat=mat, pairs=rows(net, np.ones(len(net), bool)), size=net.attrs["size"], what=what + ", net")
        elif three and mat is not None:
            view(mon, fig, mat=mat, size=mat.attrs["size"], what=what + ", mat")
        elif not three:
            mon.ev("figures")
            if case is not None:
                v = residuals(mon, out, what)
                mon.check(len(v) >= 1, what + ": no residual is reported", out=out[-200:])
    for b, k in rec.bodies[before[1]:]:
        s = k.get("scalars")
        mon.check(s is None or s in b.array_names, what + ": shows a field that does not exist", field=s)
        mon.ev("bodies shown")
    if case is None:
        return
    if len(rec.bodies) > before[1] and mat is None:
        s = case["notebook"]
        if s:
            e = vtk_fiber(**{k: s[k] for k in ("length", "width", "thickness")})
            mon.near(np.ptp(rec.bodies[before[1]][0].points, axis=0), np.ptp(e.points, axis=0), 1e-4 * s["length"], "notebook: the fiber shown has other dimensions")
    elif len(rec.bodies) > before[1] and not rec.solves:
        same_body(mon, rec.bodies[before[1]][0], vtk_mat(mat, verbose=False), "notebook, mat")
