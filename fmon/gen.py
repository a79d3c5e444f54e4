"""Workloads: fiber sets built without the code under test, and pipelines on them.

A workload is a JSON-able dict; everything random in it comes from its own "seed".
"""
import numpy as np
import pandas as pd

COLS = [*"lbhxyzuvwGE"]
PLANAR = ["uniform", "poly", "lattice", "bundles", "concurrent", "edge", "dense", "sparse", "clusters", "needles",
          "hitch", "broad", "tower"]
TILTED = ["tilted", "steep"]
ALL = PLANAR + TILTED


def rng_of(case, salt=0):
    return np.random.default_rng([int(case["seed"]), salt])


def table(case):
    """DataFrame of fibers (+ attrs) of the given family; no code of fibermat involved."""
    r = rng_of(case)
    fam, n = case["fam"], case["n"]
    size = float(case.get("size", 50.))
    L = float(case.get("length", 0.5 * size))
    wid, thk = float(case.get("width", 0.04 * L)), float(case.get("thickness", 0.02 * L))
    l, b, h = np.full(n, L), np.full(n, wid), np.full(n, thk)
    x, y = r.uniform(-.5, .5, n) * size, r.uniform(-.5, .5, n) * size
    z = np.sort(r.uniform(-.5, .5, n) * size)
    p = r.uniform(-.5, .5, n) * np.pi
    q = np.zeros(n)
    G, E = np.full(n, 1.), np.full(n, np.inf)
    if fam == "poly":
        l = L * r.uniform(0.05, 1., n)
        b, h = wid * r.uniform(.3, 2., n), thk * r.uniform(.2, 3., n)
        p = r.uniform(-1, 1, n) * np.pi
    elif fam == "lattice":
        g = r.integers(-4, 5, (n, 2)) * size / 10
        x, y = g.T + r.choice([0, 1]) * r.normal(0, .003 * size, (2, n))
        p = r.choice([0., np.pi / 2], n)
        if r.random() < .5:
            l = L * r.choice([.23, .61, 1.], n)
    elif fam == "bundles":
        a = r.uniform(-.5, .5, max(1, n // 5)) * np.pi
        p = r.choice(a, n)
        flip = r.random(n) < .3
        p = p + flip * np.pi
    elif fam == "concurrent":
        # fibers through a few common points of the plan
        m = max(1, n // 5)
        c = r.uniform(-.4, .4, (m, 2)) * size
        k = r.integers(0, m, n)
        s = r.choice([0., .25, -.25], n) * L
        x, y = (c[k] - s[:, None] * np.c_[np.cos(p), np.sin(p)]).T
        x, y = np.clip(x, -.5 * size, .5 * size), np.clip(y, -.5 * size, .5 * size)
    elif fam == "edge":
        e = r.integers(0, 6, n)
        near = .5 * size - r.choice([0., 1e-9, .01, .1], n) * L
        x = np.where((e == 0) | (e == 4), near, np.where((e == 1) | (e == 5), -near, x))
        y = np.where((e == 2) | (e == 4), near, np.where((e == 3) | (e == 5), -near, y))
    elif fam == "dense":
        l = np.full(n, size) * r.choice([.8, .95, 1.])
    elif fam == "sparse":
        l = np.full(n, L) * .15
    elif fam == "clusters":
        c = r.uniform(-.5, .5, (3, 2)) * size
        x, y = np.clip(c[r.integers(0, 3, n)] + r.normal(0, .08 * L, (n, 2)), -.5 * size, .5 * size).T
        l = L * r.uniform(.3, 1., n)
    elif fam == "needles":
        # a few very long among very short ones
        l = np.where(r.random(n) < .3, L, .06 * L)
        h = np.where(r.random(n) < .3, 3 * thk, thk)
    elif fam == "broad":
        # lengths over two decades (or more), many fibers near the faces
        l = L * 10 ** r.uniform(-case.get("decades", 2), 0, n)
        e = r.random((n, 2)) < .4
        d = (.5 * size - r.random((n, 2)) * .6 * L) * r.choice([-1, 1], (n, 2))
        x, y = np.where(e[:, 0], d[:, 0], x), np.where(e[:, 1], d[:, 1], y)
        x, y = np.clip(x, -.5 * size, .5 * size), np.clip(y, -.5 * size, .5 * size)
        h = thk * r.uniform(.2, 3., n)
    elif fam == "hitch":
        # fibers of any length laid across the others, where these are or where their images are
        p = r.uniform(-1, 1, n) * np.pi
        for j in range(n // 3, n):
            i = int(r.integers(0, max(1, j)))
            if i == j:
                continue
            l[j] = L * 10 ** r.uniform(-1.5, 0)
            s, o = r.uniform(-.5, .5) * l[i], r.uniform(-.5, .5) * l[j]
            c = np.array([x[i] + s * np.cos(p[i]) - o * np.cos(p[j]), y[i] + s * np.sin(p[i]) - o * np.sin(p[j])])
            x[j], y[j] = np.clip((c + .5 * size) % size - .5 * size, -.5 * size, .5 * size)
    elif fam == "tower":
        # thick fibers around one place: stacks much higher than the box
        x, y = np.clip(r.normal(0, .06 * L, (2, n)), -.5 * size, .5 * size)
        h = size * r.uniform(.05, .6, n)
        b = h * r.uniform(.5, 2., n)
    elif fam == "tilted":
        q = r.uniform(-.5, .5, n) * r.choice([.2, 1., 2.])
    elif fam == "steep":
        q = np.pi / 2 - r.uniform(0., .3, n)
        q *= r.choice([-1, 1], n)
    elif fam == "uniform" and r.random() < .5:
        p = r.uniform(-1, 1, n) * np.pi
    u, v, w = np.cos(p) * np.cos(q), np.sin(p) * np.cos(q), np.sin(q)
    if fam == "lattice":
        u, v, w = np.where(p == 0, 1., 0.), np.where(p == 0, 0., 1.), 0 * w
    if fam == "bundles":
        # antiparallel fibers are exactly antiparallel
        sgn = np.where(flip, -1., 1.)
        pp = p - flip * np.pi
        u, v = sgn * np.cos(pp), sgn * np.sin(pp)
    mod = case.get("moduli", "inf")
    if mod == "finite":
        G[:], E[:] = r.uniform(.5, 2.), r.choice([10., 600., 2500.])
    elif mod == "hetero":
        G, E = r.uniform(.2, 5., n), 10 ** r.uniform(0., 4., n)
    elif mod == "mixed":
        G, E = r.uniform(.2, 5., n), np.where(r.random(n) < .5, np.inf, 10 ** r.uniform(0., 4., n))
    elif mod == "wide":
        G, E = 10 ** r.uniform(-1., 2., n), 10 ** r.uniform(-1., 6., n)
    if case.get("hetero"):
        h = h * r.uniform(.3, 2.5, n)
        b = b * r.uniform(.5, 2., n)
    if case.get("shuffle_z"):
        z = r.permutation(z)
    if mod == "extreme":
        G, E = 10 ** r.uniform(-3., 3., n), 10 ** r.uniform(-3., 9., n)
    z = z * case.get("spread", 1.) + case.get("rise", 0.) * size
    k = float(case.get("scale", 1.))
    if case.get("twins") and n > 1:
        # fibers at exactly the same place (other moduli)
        for j in range(1, n):
            if r.random() < .2:
                i = int(r.integers(0, j))
                for a in (l, b, h, x, y, z, u, v, w):
                    a[j] = a[i]
    df = pd.DataFrame(np.c_[k * l, k * b, k * h, k * x, k * y, k * z, u, v, w, G, E].reshape(n, 11), columns=COLS)
    if k != 1:
        df[["x", "y"]] = df[["x", "y"]].clip(-.5 * k * size, .5 * k * size)
    df.attrs = {"n": n, "size": k * size}
    return df


def mat(case):
    from fibermat import Mat
    return Mat(table(case))


def pick(r, a):
    v = a[int(r.integers(len(a)))]
    return v.item() if hasattr(v, "item") else v


def spec(r, fams, nmin, nmax, vary=True, **kw):
    """Random workload description (vary: also other units of length, and fibers longer than the box if not periodic)."""
    s = {"fam": pick(r, fams), "n": int(r.integers(nmin, nmax + 1)), "seed": int(r.integers(2 ** 31))}
    if vary and r.random() < .1:
        s["n"] = min(nmax, nmin + int(r.integers(0, 3)))
    s["size"] = pick(r, [50., 50., 10., 1., 200.])
    s["length"] = round(s["size"] * pick(r, [.2, .5, .5, .7, 1.]), 6)
    s["hetero"] = bool(r.random() < .5)
    s["shuffle_z"] = bool(r.random() < .3)
    s["moduli"] = pick(r, ["inf", "finite", "hetero", "mixed"])
    s["periodic"] = bool(r.random() < .5)
    k, g = pick(r, [1.] * 12 + [1e-3, 1e-2, .1, 7., 1e3, 1e5]), pick(r, [1.] * 8 + [2., 6.])
    s.update(kw)
    if vary:
        # (domain: dimensions of 1e-6 to 1e6 mm; the optimiser has absolute tolerances and bounds beyond)
        if r.random() < .15:
            s["moduli"] = "extreme"
        if r.random() < .12:
            s["spread"], s["rise"] = pick(r, [0., 1., 3., 30.]), pick(r, [0., 1., 5.])
        if r.random() < .08:
            s["twins"] = True
        if k != 1 and (k >= 1 or s["size"] >= 10) and not (k > 1e4 and s["fam"] == "tower"):
            s["scale"] = k
        if g != 1 and not s["periodic"]:
            s["length"] = round(s["length"] * g, 6)
        if s.get("scale", 1) > 1e4 and s["scale"] * max(s["size"], s["length"]) > 2e6:
            s["scale"] = 1e3
    return s


def large(r, i, every, s, nmin=150, nmax=330):
    """Every so often a large set."""
    if i % every == every - 1:
        s["n"] = int(r.integers(nmin, nmax))
        if s["fam"] in ("tower", "concurrent", "dense", "steep"):
            s["fam"] = "uniform"
        s["length"] = round(min(s["length"], .3 * s["size"]), 6)
    return s


def pipeline(case, upto="mesh"):
    """mat -> net -> stack -> mesh with the options of the case."""
    from fibermat import Mat, Net, Stack, Mesh
    m = mat(case)
    net = Net(m, periodic=case.get("periodic", True))
    if upto == "net":
        return m, net
    st = Stack(m, net, threshold=case.get("threshold"))
    if upto == "stack":
        return m, net, st
    return m, net, st, Mesh(st)


# -- solver runs ------------------------------------------------------------
def solve_spec(r, nmin=2, nmax=26, **kw):
    s = spec(r, ["uniform", "poly", "lattice", "bundles", "concurrent", "dense", "clusters", "needles", "edge", "sparse",
                 "uniform", "dense", "clusters", "concurrent", "lattice", "hitch", "broad"], nmin, nmax, vary=False)
    if nmax > 9 and r.random() < .7:
        # small sets jam at once: prefer those that compact over many steps
        s["n"] = int(r.integers(max(9, nmax // 2), nmax + 1))
    s["size"] = pick(r, [50., 50., 50., 10., 10., 2., 200.])
    s["length"] = round(s["size"] * pick(r, [.5, .5, .7, 1.]), 6)
    # (families of short fibers: hardly any contact otherwise)
    if s["fam"] in ("poly", "needles", "broad", "clusters", "hitch", "lattice", "bundles", "uniform") and r.random() < .6:
        s["length"] = s["size"]
    if s["fam"] in ("sparse", "broad", "needles") and r.random() < .6:
        s["fam"] = pick(r, ["uniform", "edge", "bundles", "hitch"])
    s["moduli"] = pick(r, ["inf", "finite", "finite", "hetero", "mixed"])
    th = pick(r, [None] * 5 + [0., 1.2, 2., 5., 5., 40., float("inf")])
    s["threshold"] = None if th is None else (th if th == float("inf") else round(th * .02 * s["length"], 6))
    s["shuffle_z"] = False
    o = {"packing": pick(r, [1.2, 1.5, 2., 3., 4.]), "itermax": pick(r, [60, 200, 200, 400]),
         "coupling": pick(r, [.99, .99, .9, .5, 0.]), "lmin": pick(r, [None, .01, .1]), "lmax": None}
    if r.random() < .15:
        o["lmax"] = round(s["length"] * pick(r, [.3, 1., 2.]), 6)
    if o["lmin"] is None:
        # positive element lengths are required (lengths as they are: only where no two nodes are at the same place)
        if s["fam"] not in ("uniform", "poly", "dense", "clusters", "broad") or r.random() < .5:
            o["lmin"] = .001 * s["length"]
    if s["moduli"] == "inf" and r.random() < .5:
        o["coupling"] = 1.
    s["opts"] = o
    widen(s)
    s.update(kw)
    return s


WIDE = ["order", "order", "target", "target", "moduli", "moduli", "twins", "limit", "verbose", "verbose", "thickness", "thickness", "short",
        "tower", "coupling"]


def widen(s):
    """A third of the solver runs goes further: one or two unusual traits."""
    r = np.random.default_rng([s["seed"], 4242])
    if r.random() > .35:
        return
    o = s["opts"]
    s["wide"] = w = sorted(set(pick(r, WIDE) for _ in range(int(r.integers(1, 3)))))
    for a in w:
        if a == "order":
            s["shuffle_z"] = True
        elif a == "target":
            o["packing"] = pick(r, [1.01, 6., 12., float("inf")])
        elif a == "moduli":
            s["moduli"] = "wide"
        elif a == "twins":
            s["twins"] = True
            o["lmin"] = max(o["lmin"] or 0, .001 * s["length"])
        elif a == "limit":
            o["itermax"] = pick(r, [1, 2, 5, 20, 1000])
        elif a == "verbose":
            o["verbose"] = True
        elif a == "thickness":
            s["thickness"] = pick(r, [.002, .1, .5]) * s["length"]
            if s["thickness"] > .01 * s["length"]:
                o["lmin"] = round(.1 * s["length"], 6)
        elif a == "short" and s["n"] > 8:
            s["n"], s["length"] = min(2 * s["n"], 60), round(.25 * s["size"], 6)
        elif a == "tower":
            # (short elements of thick fibers: systems too close to singular to judge contacts)
            s["fam"], s["n"], o["lmin"] = "tower", min(s["n"], 12), round(.1 * s["length"], 6)
        elif a == "coupling" and o["coupling"] < 1:
            o["coupling"] = pick(r, [.1, .3, .7, .95])


def run_solve(case, m, mesh, **kw):
    import contextlib, io, warnings
    from fibermat import solve
    o = dict(case["opts"])
    o.setdefault("verbose", False)
    o.update(kw)
    if not o["verbose"] or "verbose" in kw:
        return solve(m, mesh, **o)
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return solve(m, mesh, **o)
