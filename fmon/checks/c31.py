"""C31: what the system diagnostic draws, solves and reports, for states all along compactions."""
import contextlib, io, re
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl
from .. import gen
from ..solvemon import Run
from .c28 import snap, diff
from .c21 import gen_perm, SOLVERS

ID = "C31"
RULE = ("assembled systems of all in-plane families at states recorded along compactions (and at perturbed states away from contact), with random / "
        "reversed / bandwidth-reducing / no permutation, exact and deliberately inexact linear solvers, given or new axes; the drawn entries of each "
        "category, the linear system handed to the solver and the printed residual are compared with those computed from the arguments; "
        "non-trivial = new system with at least two categories of contacts")
NEED = {"diagnostics": 150, "entries drawn": 20000, "stiffness": 5000, "inner": 200, "lower": 200, "upper": 200, "inactive": 1000,
        "permuted": 60, "inexact solvers": 30, "systems seen": 120, "axes given": 60}
ASSUMPTIONS = ["clearances between 1e-9 and 1e-4 of the distances may be drawn in either category"]


def cases(rng, tier):
    k = 700 if tier == "quick" else 2400
    for i in range(k):
        s = gen.solve_spec(rng, 1, 14 if i % 8 else 30)
        s["opts"]["itermax"] = 40
        if i % 4 == 1:
            s["stress"] = gen.pick(rng, [1e6, 1e3, 1e-6])
        yield s


def drawn(ax):
    """Category -> set of drawn (row, column)."""
    out = {}
    for a in ax.lines:
        out.setdefault(a.get_label(), set()).update(zip(np.rint(a.get_ydata()).astype(int).tolist(), np.rint(a.get_xdata()).astype(int).tolist()))
    for a in ax.collections:
        out.setdefault(a.get_label(), set()).update((int(round(y)), int(round(x))) for x, y in np.asarray(a.get_offsets()))
    return out


def run(case, mon):
    from fibermat import plot_system, stiffness, constraint
    from matplotlib import pyplot as plt
    r = gen.rng_of(case, 31)
    table = gen.table
    if "stress" in case:
        def other(x):
            df = table(x)
            df["G"] *= case["stress"]
            df["E"] *= case["stress"]
            return df
        gen.table = other
    try:
        o = Run(case, **({"errtol": np.inf} if "stress" in case else {}))
    finally:
        gen.table = table
    K, _, _, du, dF = stiffness(o.m, o.mesh, **{k: case["opts"][k] for k in ("lmin", "lmax", "coupling")})
    C, _, _, df, dH = constraint(o.m, o.mesh)
    n, m = K.shape[0], C.shape[0]
    ts = o.rl.t
    for q in range(3):
        t = ts[int(r.integers(len(ts)))] if q else ts[-1]
        u, f, F, H = o.u(t), o.fo(t), o.F(t), o.H(t)
        if q == 2 and r.random() < .5:
            # away from contact
            u = u.copy()
            u[::2] += r.normal(0, .3 * o.hmax, o.N) * (r.random(o.N) < .5)
        one(case, mon, r, plot_system, plt, o, K, C, u, f, F, H, du, dF, df, dH, n, m)


def one(case, mon, r, plot_system, plt, o, K, C, u, f, F, H, du, dF, df, dH, n, m):
    P, _ = o.system()
    kw, calls = {}, []
    perm = np.arange(n + m)
    if r.random() < .7:
        perm = r.permutation(n + m) if r.random() < .5 else gen_perm(r, P, n + m)
        kw["perm"] = perm
        mon.ev("permuted")
    noise = r.random() < .5
    inner = SOLVERS[list(SOLVERS)[int(r.integers(4))]] if r.random() < .5 else spl.spsolve
    amp = 10. ** r.uniform(-6, 2)

    def solver(A, b):
        x = inner(A, b)
        if noise:
            x = x + amp * r.normal(size=len(b))
        calls.append((sp.csr_matrix(A).copy(), np.array(b), np.array(x)))
        return x
    kw["solve"] = solver
    given = r.random() < .6
    if given:
        fig, axs = plt.subplots(1, 2)
        kw["ax"] = axs[0]
        axs[0].plot([0], [0], label="before")
        mon.ev("axes given")
    if r.random() < .3:
        kw["tol"] = o.tol * float(10 ** r.uniform(-3, 3))
    tol = kw.get("tol", 1e-6)
    args = [K, u, F, du, dF, C, f, H, df, dH]
    s0 = snap(args + [perm])
    figs = set(plt.get_fignums())
    buf = io.StringIO()
    mon.ev("diagnostics")
    try:
        with contextlib.redirect_stdout(buf):
            ax = plot_system(*args, **kw)
    except (RuntimeError, np.linalg.LinAlgError):
        mon.note("singular system")
        plt.close("all")
        return
    mon.check(snap(args + [perm]) == s0, "the diagnostic modifies its arguments", parts=diff(snap(args + [perm]), s0))
    if given:
        mon.check(ax is axs[0] and set(plt.get_fignums()) == figs, "the diagnostic does not draw on the given axes")
        mon.check(any(a.get_label() == "before" for a in ax.lines) and not axs[1].lines and not axs[1].collections, "other drawings are affected")
    else:
        mon.check(len(set(plt.get_fignums()) - figs) == 1, "no figure was created")
    d = drawn(ax)
    d.pop("before", None)
    # expected entries
    inv = np.empty_like(perm)
    inv[perm] = np.arange(n + m)
    Kc, Cc = sp.csr_matrix(K).tocoo(), sp.csr_matrix(C).tocoo()
    ok = Kc.data != 0
    nan = np.isnan(Kc.data)
    want = {"stiffness": set(zip(inv[Kc.row[ok & ~nan]].tolist(), inv[Kc.col[ok & ~nan]].tolist()))}
    maybe = set(zip(inv[Kc.row[nan]].tolist(), inv[Kc.col[nan]].tolist()))
    got = d.get("stiffness", set()) - maybe
    mon.check(got == want["stiffness"], "entries drawn as stiffness", missing=len(want["stiffness"] - got), wrong=len(got - want["stiffness"]))
    mon.ev("stiffness", len(got))
    with np.errstate(invalid="ignore"):
        c = H - C @ u
        sc = np.where(np.isfinite(H), np.abs(H), 0)
        zero, off = np.abs(c) <= 1e-9 * (1e-3 + sc), ~(np.abs(c) <= 1e-4 * (1 + sc))
    kinds = 0
    names = ["lower", "inner", "upper"]
    for k, name in enumerate(names):
        mine = np.arange(m) % 3 == k
        sure = pairs(Cc, mine & zero, inv, n)
        may = pairs(Cc, mine & ~off, inv, n)
        got = d.get(name, set())
        mon.check(sure <= got <= may, "entries drawn as %s" % name, missing=len(sure - got), wrong=len(got - may))
        mon.ev(name, len(got))
        kinds += len(got) > 0
    got = d.get("inactive", set())
    sure, may = pairs(Cc, off, inv, n), pairs(Cc, ~zero, inv, n)
    mon.check(sure <= got <= may, "entries drawn as inactive", missing=len(sure - got), wrong=len(got - may))
    mon.ev("inactive", len(got))
    # each entry in one category only, and all of them
    cat = [d.get(x, set()) for x in ("stiffness", *names, "inactive")]
    mon.check(sum(map(len, cat)) == len(set().union(*cat)), "an entry is drawn in two categories")
    mon.check(len(cat[1] | cat[2] | cat[3] | cat[4]) == 2 * (Cc.data != 0).sum(), "an entry of the constraints is not drawn")
    mon.ev("entries drawn", sum(map(len, cat)))
    # linear step
    if len(calls) != 1:
        mon.violate("linear systems solved", got=len(calls))
        return
    A, b, x = calls[0]
    act, unsure = o.active(np.where(np.isnan(c), np.inf, c), tol)
    if not unsure[n:].any():
        w = perm[act[perm]]
        E = P.tocsr()[w][:, w]
        dq = np.r_[dF, dH]
        same = A.shape == E.shape and abs(A - E).nnz == 0 and np.array_equal(b, dq[w])
        mon.check(same, "the linear step is not that of the active constraints", got=A.shape, expected=E.shape)
        mon.ev("systems seen")
    if not np.isfinite(x).all():
        mon.note("singular system")
        plt.close("all")
        return
    num = re.findall(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)", buf.getvalue())
    if not mon.check(len(num) >= 1, "no residual is reported", output=buf.getvalue()[:200]):
        return
    true = np.linalg.norm(A @ x - b)
    scale = 1e-12 * (np.linalg.norm(abs(A) @ np.abs(x)) + np.linalg.norm(b))
    mon.near(float(num[-1]), true, scale + 1e-9 * true, "reported residual", inexact=bool(noise))
    mon.ev("inexact solvers", noise)
    if kinds >= 2:
        mon.key(n, m, [len(x) for x in cat], round(float(np.abs(u).sum()), 6))
        mon.sample = {"unknowns": n, "constraints": m, "drawn": dict(zip(["stiffness", *names, "inactive"], map(len, cat))), "residual": true}
    plt.close("all")


def pairs(C, rows, inv, n):
    """Positions of the entries of these rows of C, and of their transposes."""
    k = rows[C.row] & (C.data != 0)
    a, b = inv[n + C.row[k]].tolist(), inv[C.col[k]].tolist()
    return set(zip(a, b)) | set(zip(b, a))
