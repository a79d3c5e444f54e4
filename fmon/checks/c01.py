"""C01: generated fiber sets comply with the requested parameters."""
import numpy as np
from .. import gen

ID = "C01"
RULE = ("Mat(n, length, width, thickness, size, theta, psi, shear, tensile, seed) over random parameters (n 0-400, and 2000-6000 for the "
        "distribution monitors); every generated row is checked against the parameters; distribution monitors are Kolmogorov-Smirnov "
        "distances and correlations with false-alarm probability below 1e-9; non-trivial = new parameter set with n >= 1")
NEED = {"rows": 10000, "large sets": 6, "inclined sets": 20, "narrow sets": 20, "empty sets": 1, "values without repetition": 50000}
ASSUMPTIONS = ["out-of-plane range <= pi, in-plane range <= 2 pi"]


def cases(rng, tier):
    k = 1200 if tier == "quick" else 12000
    for i in range(k):
        big = i % 20 == 0
        yield {"seed": int(rng.integers(2 ** 31)), "n": int(rng.integers(2000, 6000)) if big else (i % 23 and int(rng.integers(1, 400))),
               "length": round(10 ** rng.uniform(-3, 3), 6), "width": round(10 ** rng.uniform(-3, 2), 6),
               "thickness": round(10 ** rng.uniform(-3, 2), 6), "size": gen.pick(rng, [50., 1., 1000., .003, 7]),
               "theta": gen.pick(rng, [np.pi, np.pi, 0., .1, 1., 2 * np.pi]), "psi": gen.pick(rng, [0., 0., .05, 1., np.pi]),
               "shear": gen.pick(rng, [1., 2500., .01]), "tensile": gen.pick(rng, [float("inf"), 2500., .5]),
               "mseed": int(rng.integers(2 ** 31)), "defaults": bool(rng.random() < .1)}


def ks(mon, x, what):
    """x uniform on [0, 1]?"""
    n = len(x)
    x = np.sort(x)
    g = np.arange(n + 1) / n
    d = max(np.max(np.abs(x - g[1:])), np.max(np.abs(x - g[:-1])))
    mon.check(d < np.sqrt(24. / (2 * n)), "not spread uniformly: " + what, distance=d, n=n)
    mon.ev("distribution monitors")


def run(case, mon):
    from fibermat import Mat
    kw = {k: case[k] for k in ("length", "width", "thickness", "size", "theta", "psi", "shear", "tensile")}
    n = int(case["n"])
    if case["defaults"]:
        m = Mat(n)
        kw = dict(length=25., width=1., thickness=1., size=50., theta=np.pi, psi=0., shear=1., tensile=np.inf)
    elif case["seed"] % 2:
        m = Mat(n, *[kw[k] for k in ("length", "width", "thickness", "size", "theta", "psi", "shear", "tensile")], case["mseed"])
    else:
        m = Mat(n, seed=case["mseed"], unknown_option=3, **kw)
    mon.check(isinstance(m, Mat) and list(m.columns) == gen.COLS, "columns", got=list(m.columns))
    mon.check(len(m) == n and m.attrs.get("n") == n and m.attrs.get("size") == kw["size"], "number of fibers or attributes",
              got=len(m), attrs=m.attrs)
    mon.check(list(m.index) == list(range(n)), "labels")
    mon.ev("rows", n)
    if n == 0:
        mon.ev("empty sets")
        return
    mon.check(np.isfinite(m[[*"lbhxyzuvwG"]].values.astype(float)).all(), "undefined values")
    for c, k in zip("lbhGE", ("length", "width", "thickness", "shear", "tensile")):
        mon.check((m[c].values == kw[k]).all(), "column %s differs from the requested %s" % (c, k), got=m[c].values[:3])
    half = .5 * kw["size"]
    for c in "xyz":
        mon.check((np.abs(m[c].values) <= half).all(), "%s outside the box" % c, max=np.abs(m[c].values).max(), half=half)
    mon.check((np.diff(m.z.values) >= 0).all(), "fibers not ordered by height")
    u, v, w = m[[*"uvw"]].values.T
    mon.near(np.sqrt(u * u + v * v + w * w), np.ones(n), 1e-12, "direction not a unit vector")
    p, q = np.arctan2(v, u), np.arctan2(w, np.hypot(u, v))
    eps = 1e-7
    mon.check((np.abs(q) <= .5 * kw["psi"] + eps).all(), "elevation out of range", max=np.abs(q).max(), psi=kw["psi"])
    flat = np.hypot(u, v) > 1e-6
    mon.check((np.abs(p[flat]) <= .5 * kw["theta"] + 1e-6).all(), "in-plane angle out of range", max=np.abs(p[flat]).max(), theta=kw["theta"])
    if kw["psi"]:
        mon.ev("inclined sets")
    if kw["theta"] < np.pi:
        mon.ev("narrow sets")
    V = {}
    for c in "xyz":
        V[c] = m[c].values / kw["size"] + .5
    if kw["theta"]:
        V["in-plane angle"] = p / kw["theta"] + .5
    if kw["psi"]:
        V["elevation"] = q / kw["psi"] + .5
    for k, a in V.items():
        # fibers do not repeat, mirror or complete one another
        for what, a_ in (("repeated", a), ("mirrored", np.abs(a - .5)), ("shifted", a % .5)):
            eq = n - len(np.unique(np.round(a_, 12)))
            mon.check(eq < 4, "values of %s are %s" % (k, what), number=eq, n=n)
        mon.ev("values without repetition", n)
    if n >= 2000:
        mon.ev("large sets")
        for k, a in V.items():
            ks(mon, a, k)
            if k == "z":
                continue
            # the fibers are independent of each other (in the order of labels)
            for j in (1, 2, 3, n // 3, n // 2):
                for c in (a - .5, np.abs(a - .5) - .25):
                    r = np.corrcoef(c[j:], c[:-j])[0, 1]
                    mon.check(abs(r) < 6.8 / np.sqrt(n - j), "%s of one fiber depends on that of another" % k, r=r, lag=j, n=n)
            r = np.corrcoef(a, a[::-1])[0, 1]
            mon.check(abs(r) < 6.8 * np.sqrt(2. / n), "%s of one fiber depends on that of another" % k, r=r, n=n)
        names = list(V)
        for i, a in enumerate(names):
            for b in names[:i]:
                r = np.corrcoef(V[a], V[b])[0, 1]
                mon.check(abs(r) < 6.8 / np.sqrt(n), "%s and %s are correlated" % (a, b), r=r, n=n)
                # dependence beyond correlation
                r2 = np.corrcoef(np.abs(V[a] - .5), np.abs(V[b] - .5))[0, 1]
                # (draws of 53 bits: equal values of independent coordinates are not seen)
                eq = len(np.intersect1d(np.round(V[a], 12), np.round(V[b], 12)))
                mon.check(eq < 4, "%s and %s take the same values" % (a, b), equal=eq, n=n)
                mon.check(abs(r2) < 6.8 / np.sqrt(n), "|%s| and |%s| are correlated" % (a, b), r=r2, n=n)
    mon.key(n, sorted(kw.items()), case["mseed"])
    mon.sample = {"n": n, **kw, "x range": [m.x.min(), m.x.max()]}
