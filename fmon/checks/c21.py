"""C21: independence from permutation, linear solver, verbosity, resampling; repeatability."""
import warnings
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl
from .. import gen
from ..solvemon import Run, cond1

ID = "C21"
RULE = ("solver runs as in C17, each repeated with random / reversed / bandwidth-reducing permutations, four other exact linear solvers (dense LU, "
        "sparse LU, symmetric indefinite, least-squares), verbosity on, resampling, and unchanged; paths compared as functions of the wall "
        "position, every system passed to the linear solver inspected; non-trivial = new history of at least 3 steps")
NEED = {"runs": 60, "variants": 300, "systems seen": 1000, "compared positions": 2000, "same number of steps": 200, "identical repeats": 60}
ASSUMPTIONS = ["as C17", "when the next system is singular, solvers may stop at different steps: only the common part is compared (counted as not judged)",
               "events closer than the contact tolerance may be merged"]


def dense(A, b):
    return np.linalg.solve(A.toarray(), b)


def lu(A, b):
    return spl.splu(sp.csc_matrix(A)).solve(b)


def symm(A, b):
    import scipy.linalg as sl
    return sl.solve(A.toarray(), b, assume_a="sym")


def reordered(A, b):
    return spl.spsolve(sp.csc_matrix(A), b, permc_spec="MMD_AT_PLUS_A")


SOLVERS = {"dense LU": dense, "sparse LU": lu, "symmetric": symm, "reordered": reordered}


def cases(rng, tier):
    k = 300 if tier == "quick" else 2600
    for i in range(k):
        s = gen.solve_spec(rng, 2, 24 if i % 10 else 50)
        if i % 5 == 1:
            s["opts"]["itermax"] = int(rng.integers(1, 9))
        s["opts"]["packing"] = gen.pick(rng, [1.2, 1.5, 2., 3.]) + .0917 * float(rng.random())
        yield s


def path(o):
    t = o.u.t
    return np.array([float(o.Z(x)) for x in t]), np.array([o.u(x) for x in t]), np.array([o.fo(x)[2::3].sum() for x in t])


def at(p, z):
    Z, U, W = p
    Z = Z[::-1]
    return np.array([np.interp(z, Z, c[::-1]) for c in U.T]).T, np.interp(z, Z, W[::-1])


def cond(o):
    """Condition number of the last system passed to the linear solver (the one that stopped the run)."""
    try:
        return np.linalg.cond(o.calls[-1]["A"].toarray()) if o.calls else 0.
    except np.linalg.LinAlgError:
        return np.inf


def run(case, mon):
    r = gen.rng_of(case, 21)
    o = Run(case, record=True)
    mon.ev("runs")
    p = path(o)
    # systems with a condition number beyond 1e11 leave no digits to compare
    k = max([cond1(c["A"]) for c in o.calls[:o.T - 1]], default=1.)
    rel = min(1e-4, 1e-7 + 1e-14 * k)
    if not k < 1e11:
        mon.note("ill-conditioned run")
        return
    kk = np.abs(o.K.data[np.isfinite(o.K.data)])
    noise = 1e-13 * (kk.max() if len(kk) else 0.) * o.top
    names = list(SOLVERS)
    P, _ = o.system()
    n = P.shape[0]
    variants = [("repeat", {}), ("verbose", {"verbose": True}), ("random permutation", {"perm": r.permutation(n)}),
                ("permutation", {"perm": gen_perm(r, P, n)}), ("size", {"interp_size": int(r.integers(2, 40)) if r.random() < .5 else case["opts"]["itermax"] + int(r.integers(1, 9))}),
                ("both", {"perm": r.permutation(n), "inner": SOLVERS[names[r.integers(4)]]})]
    variants += [(a, {"inner": SOLVERS[a]}) for a in r.choice(names, 2, replace=False)]
    for name, kw in variants:
        kw = dict(kw)
        if name in ("size", "repeat", "verbose"):
            v = Run(case, **kw)
        else:
            v = Run(case, record=True, **kw)
            for i, c in enumerate(v.calls):
                A = c["A"]
                if not mon.check(A.shape[0] == A.shape[1] == len(c["b"]), "system is not square", variant=name):
                    continue
                D = abs(A - A.T).tocsr()
                mon.check(np.isfinite(A.data).all() and np.isfinite(c["b"]).all(), "undefined entries in a linear system", variant=name)
                mon.check(D.nnz == 0 or D.max() <= 1e-10 * abs(A).max(), "linear system is not symmetric", variant=name, step=i)
                mon.check((abs(A).sum(0) > 0).all(), "inactive unknown in a linear system", variant=name, step=i)
                mon.ev("systems seen")
        mon.ev("variants")
        if name in ("repeat", "verbose"):
            same = all(np.array_equal(a(s), b(s), equal_nan=True) for a, b in zip(o.out[2:], v.out[2:]) for s in (*o.rl.t, .123, .77))
            mon.check(v.T == o.T and same, "a repeated run gives another result (%s)" % name)
            mon.ev("identical repeats", name == "repeat")
            continue
        if name == "size":
            mon.check(v.T == o.T, "the number of steps depends on the resampling", got=v.T, expected=o.T)
            for a, b, what in ((o.u, v.u, "displacement"), (o.Z, v.Z, "wall"), (o.fo, v.fo, "force"), (o.rl, v.rl, "compaction")):
                mon.near(b(1), a(1), 1e-9 * (1e-300 + np.abs(a(1)[np.isfinite(a(1))]).max(initial=0)), "final %s depends on the resampling" % what)
            continue
        q = path(v)
        end = max(p[0][-1], q[0][-1])
        merge = lambda Z: 1 + (np.diff(Z) < -4 * o.tol - 1e-6 * o.top).sum()  # noqa: E731
        if abs(p[0][-1] - q[0][-1]) > rel * o.top + 4 * o.tol or merge(p[0]) != merge(q[0]):
            # one of them stopped earlier: only legitimate on a singular system
            early = o if p[0][-1] > q[0][-1] else v
            if abs(early.rl(1) - case["opts"]["packing"]) < 1e-6:
                mon.note("target reached within rounding")
            elif not early.calls or cond(early) < 1e9:
                if abs(p[0][-1] - q[0][-1]) > rel * o.top + 4 * o.tol:
                    mon.violate("the run ends elsewhere (%s)" % name, base=p[0][-1], variant=q[0][-1], condition=cond(early) if early.calls else None)
                elif o.T != v.T:
                    mon.violate("another number of steps (%s)" % name, base=o.T - 1, variant=v.T - 1)
            else:
                mon.note("singular system at the end")
        else:
            mon.ev("same number of steps")
        z = np.unique(np.r_[p[0], q[0]])
        z = z[z >= end]
        (ua, wa), (ub, wb) = at(p, z), at(q, z)
        mon.near(ub[:, ::2], ua[:, ::2], rel * o.top + 4 * o.tol, "displacements depend on the %s" % ("permutation" if "perm" in name else "linear solver"), variant=name)
        sc = max(np.abs(wa).max(), 1e-300)
        # a contact detected within the tolerance changes the force by stiffness x tolerance
        mon.near(wb, wa, 10 * rel * sc + 8 * o.tol * stiff(p, q) + noise, "wall force depends on the %s" % ("permutation" if "perm" in name else "linear solver"), variant=name)
        mon.ev("compared positions", len(z))
    if o.T > 3:
        mon.key(np.round(p[0] / o.hmax, 5).tobytes())
        mon.sample = {"fibers": len(o.m), "steps": o.T - 1, "condition": k}


def stiff(*paths):
    """Largest apparent stiffness of the recorded paths."""
    s = 0.
    for Z, U, W in paths:
        d = -np.diff(Z)
        ok = d > 1e-9 * Z[0]
        s = max(s, np.abs(np.diff(W)[ok] / d[ok]).max(initial=0.))
    return s


def gen_perm(r, P, n):
    if r.random() < .5:
        return np.arange(n)[::-1].copy()
    Q = sp.csr_matrix(P)
    Q.data = np.ones_like(Q.data)
    return sp.csgraph.reverse_cuthill_mckee(Q, symmetric_mode=True)
