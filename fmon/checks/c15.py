"""C15: stiffness matrix = assembled documented beam elements."""
import numpy as np
from .. import gen

ID = "C15"
RULE = ("meshes (13 planar families and inclined ones, 1-30 fibers) with equal, unequal, infinite and mixed moduli and sections, length "
        "bounds and coupling factors; entry-by-entry comparison with a scalar re-assembly from the documented element, eigenvalues, rigid "
        "motions; non-trivial = new (mesh, options) with at least one fiber of several elements")
NEED = {"elements": 5000, "entries": 50000, "spectra": 30, "rigid tilts": 20, "infinite moduli": 20, "mixed moduli": 10, "rescaled": 50,
        "reduced coupling": 50, "slender elements": 50, "deformed meshes": 50}
ASSUMPTIONS = ["positive (rescaled) element lengths", "finite shear modulus"]


def cases(rng, tier):
    k = 960 if tier == "quick" else 8000
    for i in range(k):
        fam = gen.ALL[i % len(gen.ALL)]
        s = gen.spec(rng, [fam], 1, 30)
        s["threshold"] = gen.pick(rng, [None, .05 * s["length"]])
        L = s["length"]
        s["lmin"] = gen.pick(rng, [None, None, .001 * L, .02 * L])
        s["lmax"] = gen.pick(rng, [None, None, .5 * L, 2 * L])
        s["coupling"] = gen.pick(rng, [1., 1., .99, .5, 0., None])
        if i % 6 == 0:
            s["scale"] = gen.pick(rng, [1e-3, 1e3])
        gen.large(rng, i, 100, s)
        yield s


def element(l, b, h, G, E, coupling):
    """Documented element matrix for (u_i, theta_i, u_j, theta_j)."""
    k = np.pi / 4 * G * b * h / l / (1. + (G / E) * (l / h) ** 2)
    a = k * l / 2 * coupling
    bend = (E / G) * h ** 2
    d, o = k * (l * l / 3 + bend), k * (l * l / 6 - bend)
    return np.array([[k, a, -k, a], [a, d, -a, o], [-k, -a, k, -a], [a, o, -a, d]])


def run(case, mon):
    from fibermat import stiffness
    m, net, st, mesh = gen.pipeline(case)
    N = len(mesh)
    f, s = mesh.fiber.values, mesh.s.values
    el = [k for k in range(N - 1) if f[k] == f[k + 1]]
    raw = np.array([s[k + 1] - s[k] for k in el])
    k = case.get("scale", 1.)
    lmin, lmax = (None if case[c] is None else case[c] * k for c in ("lmin", "lmax"))
    # affine map of [min(l, lmin), max(l, lmax)] onto [lmin, lmax]
    a, b = raw.min(), raw.max()
    lo, hi = a if lmin is None else lmin, b if lmax is None else lmax
    x0, x1 = min(a, lo), max(b, hi)
    if hi <= lo and (lmin is not None or lmax is not None):
        mon.note("empty length interval")
        return
    L = raw.copy() if x1 == x0 else lo + (raw - x0) * ((hi - lo) / (x1 - x0))
    if (L <= 1e-9 * b).any():
        # nodes of a fiber (nearly) coincide: outside the domain without bounds
        mon.note("zero-length elements")
        return
    if case["seed"] % 3 == 0:
        # heights (of a deformed mesh) do not matter
        mesh["z"] = mesh.z.values + gen.rng_of(case, 15).normal(size=N) * b
        mon.ev("deformed meshes")
    opts = {}
    if lmin is not None:
        opts["lmin"] = lmin
    if lmax is not None:
        opts["lmax"] = lmax
    if case["coupling"] is not None:
        opts["coupling"] = case["coupling"]
    coupling = opts.get("coupling", 1.)
    before = mesh.copy()
    K, u, F, du, dF = stiffness(m, mesh, unknown_option=1, **opts)
    mon.check(mesh.equals(before), "the mesh was modified")
    for v in (u, F, du, dF):
        mon.check(np.shape(v) == (2 * N,) and not np.any(v), "vectors are not zero vectors of the right size")
    mon.check(K.shape == (2 * N, 2 * N), "shape", got=K.shape)
    K = K.toarray()
    R = np.zeros((2 * N, 2 * N))
    S = np.zeros((2 * N, 2 * N))  # sum of magnitudes
    for e, i in enumerate(el):
        g = m.loc[f[i]]
        with np.errstate(all="ignore"):
            ke = element(L[e], g.b, g.h, g.G, g.E, coupling)
        for p, ip in enumerate((2 * i, 2 * i + 1, 2 * i + 2, 2 * i + 3)):
            for q, iq in enumerate((2 * i, 2 * i + 1, 2 * i + 2, 2 * i + 3)):
                R[ip, iq] += ke[p, q]
                S[ip, iq] += abs(ke[p, q])
        mon.ev("elements")
        mon.ev("slender elements", L[e] > 20 * g.h)
    fin = np.isfinite(R)
    # relative error of each entry; lengths are differences of abscissae
    cond = 1e-9 * (1 + (np.abs(s).max() / L.min()) * 1e-3)
    ok = np.where(fin, np.abs(K - np.where(fin, R, 0)) <= cond * np.where(fin, S, 0), (K == R) | (np.isnan(R) & np.isnan(K)))
    if not mon.check(ok.all(), "entries differ from the assembled element matrices",
                     entry=(np.argwhere(~ok)[:1]).tolist(), got=K[~ok][:3], expected=R[~ok][:3], options=str(opts)):
        return
    mon.ev("entries", (R != 0).sum())
    # structure
    ff = np.repeat(f, 2)
    mon.check(not np.any(K[ff[:, None] != ff[None, :]]), "stiffness couples two fibers")
    F_ = np.isfinite(K).all(1)
    Kf = K[np.ix_(F_, F_)]
    mon.check(np.abs(Kf - Kf.T).max() <= 1e-12 * np.abs(Kf).max(), "not symmetric")
    if Kf.shape[0] <= 400 and 0 <= coupling <= 1:
        # scaled to unit diagonal (stiffnesses span many decades)
        d = 1 / np.sqrt(np.diag(Kf))
        w = np.linalg.eigvalsh(d[:, None] * Kf * d)
        mon.check(w[0] >= -1e-9, "not positive semi-definite", eigenvalue=w[0])
        mon.ev("spectra")
    one = np.tile([1., 0.], N)
    mon.check((np.abs(K[F_][:, :] @ one) <= 1e-9 * np.abs(Kf).max()).all(), "a uniform displacement creates forces")
    if coupling == 1. and x0 == lo and x1 == hi:
        tilt = np.empty(2 * N)
        tilt[::2], tilt[1::2] = s, 1.
        T = np.abs(K[F_]) @ np.abs(tilt)
        mon.check((np.abs(K[F_] @ tilt) <= 1e-9 * T.max()).all(), "a rigid tilt creates forces")
        mon.ev("rigid tilts")
    mon.ev("infinite moduli", np.isinf(m.E).all())
    mon.ev("mixed moduli", np.isinf(m.E).any() and not np.isinf(m.E).all())
    mon.ev("rescaled", x0 != lo or x1 != hi)
    mon.ev("reduced coupling", coupling < 1)
    if len(el) > len(m):
        mon.key(np.round(np.log(L), 6).tobytes(), sorted(opts.items()))
        mon.sample = {"nodes": N, "elements": len(el), "options": opts, "length range": [L.min(), L.max()]}
