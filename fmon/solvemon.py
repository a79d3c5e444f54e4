"""One observed solver run: geometry read from the tables, full history, recorded linear solves."""
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl
from . import gen


class Run:
    def __init__(self, case, record=False, mon=None, **kw):
        self.case = case
        self.m, self.net, self.st, self.mesh = gen.pipeline(case)
        m, mesh = self.m, self.mesh
        self.N = len(mesh)
        self.z0 = mesh.z.values.copy()
        self.f = mesh.fiber.values.copy()
        self.h = m.h.values[self.f]
        self.hmax = self.h.max()
        c = mesh.constraint.values
        self.lo = np.array([i for i in range(self.N) if i <= c[i]], int)
        self.hi = c[self.lo].copy()
        self.end = self.lo == self.hi
        self.top = (self.z0 + .5 * self.h).max()
        self.calls = []
        self.tol = kw.get("tol", case["opts"].get("tol", 1e-6))
        if record:
            inner = kw.pop("inner", spl.spsolve)
            limit = case["opts"].get("itermax", 1000) if "itermax" not in kw else kw["itermax"]

            def linear_solver(A, b):
                if len(self.calls) > limit + 1:
                    raise TooManySolves()
                rec = {"A": A, "b": np.array(b), "x": None}
                self.calls.append(rec)
                rec["x"] = inner(A, b)
                return rec["x"]
            kw["solve"] = linear_solver
        self.out = gen.run_solve(case, m, mesh, **kw)
        (self.K, self.C, self.u, self.fo, self.F, self.H, self.Z, self.rl, self.mask, self.err) = self.out
        self.T = len(self.rl.t)
        self.E_node = m.E.values[self.f]

    # -- clearances for displaced nodes (u: (..., N)) and wall position Z
    def clearances(self, u, Z):
        z = self.z0 + u
        Z = np.asarray(Z)[..., None]
        floor = z[..., self.lo] - .5 * self.h[self.lo]
        gap = z[..., self.hi] - z[..., self.lo] - .5 * (self.h[self.lo] + self.h[self.hi])
        gap = np.where(self.end, np.inf, gap)
        wall = Z - z[..., self.hi] - .5 * self.h[self.hi]
        return floor, gap, wall

    def active(self, c, tol):
        """Expected active unknowns for clearances c (rows, one time) and those too close to the tolerance to tell."""
        if not hasattr(self, "_dof"):
            K, C = abs(self.K).tocoo(), abs(self.C)
            bad = np.zeros(K.shape[0], bool)
            bad[K.row[~np.isfinite(K.data)]] = True
            s = np.bincount(K.col, np.where(np.isfinite(K.data), K.data, 0), K.shape[0]) + np.asarray(C.sum(0)).ravel()
            self._dof, self._row = ~bad & (s > 0), np.asarray(C.sum(1)).ravel() > 0
        dof, row = self._dof, self._row
        e = 1e-12 * (1 + self.top)
        unsure = row & (np.abs(c - tol) <= e)
        return np.r_[dof, row & (c <= tol)], np.r_[np.zeros(len(dof), bool), unsure]

    def system(self):
        P = sp.bmat([[self.K, self.C.T], [self.C, None]], format="csr")
        b = np.r_[np.zeros(2 * self.N), np.tile([0., 0., 1.], len(self.lo))]
        return P, b

    def components(self):
        """Component label of each node pair (fibers linked by connections)."""
        n = len(self.m)
        A, B = self.f[self.lo], self.f[self.hi]
        g = sp.coo_matrix((np.ones(len(A)), (A, B)), shape=(n, n))
        k, lab = sp.csgraph.connected_components(g, directed=False)
        return k, lab[A]


class TooManySolves(BaseException):
    pass


def cond1(A):
    """Condition number (1-norm); estimated for large systems."""
    n = A.shape[0]
    try:
        if n < 400:
            return float(np.linalg.cond(A.toarray(), 1))
        lu = spl.splu(sp.csc_matrix(A))
        inv = spl.LinearOperator((n, n), matvec=lu.solve, rmatvec=lambda b: lu.solve(b, "T"))
        return float(spl.onenormest(inv) * abs(A).sum(0).max())
    except (RuntimeError, np.linalg.LinAlgError, ValueError):
        return np.inf
