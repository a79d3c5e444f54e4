"""C27: settings panel round trips."""
import math
import numpy as np
from .. import gen

ID = "C27"
RULE = ("random histories of construction, item assignment, call, direct widget edits and option switching on one or two panels, every parameter "
        "read back after every operation and confronted with a plain dictionary model; pipelines driven by the panel compared with plain values; "
        "non-trivial = distinct history")
NEED = {"histories": 150, "assignments": 3000, "reads": 40000, "infinite values": 100, "unset values": 200, "switched off and on": 200,
        "unpackings": 300, "pipelines": 15, "calls": 300}
ASSUMPTIONS = ["in-plane angle share in [0, 1], iteration limit in [1, 10^6], tolerance in [1e-10, 1e-1] (slider ranges)", "no NaN"]

NAMES = ["n", "length", "width", "thickness", "size", "theta", "shear", "tensile", "seed", "periodic", "threshold", "packing", "itermax", "tol",
         "lmin", "lmax", "coupling", "interp_size", "verbose"]
DEFAULT = dict(n=0, length=25., width=1., thickness=1., size=50., theta=1., shear=1., tensile=np.inf, seed=0, periodic=True, threshold=None,
               packing=1., itermax=1000, tol=1e-6, lmin=None, lmax=None, coupling=1., interp_size=None, verbose=True)
OPTIONAL = ["seed", "threshold", "lmin", "lmax", "interp_size"]
INF = [np.inf, float("inf"), math.inf, np.float64("inf"), 1e999, np.float32("inf")]


def cases(rng, tier):
    k = 400 if tier == "quick" else 5000
    for i in range(k):
        yield {"seed": int(rng.integers(2 ** 31)), "ops": int(rng.integers(8, 40)), "pipe": i % 10 == 0}


def value(r, name, mon):
    if name in ("n", "seed", "interp_size"):
        v = int(gen.pick(r, [0, 1, 2, 7, 100, int(r.integers(0, 10 ** 6))]))
        v = 2 + v if name == "interp_size" else v
    elif name in ("periodic", "verbose"):
        v = bool(r.random() < .5)
    elif name == "theta":
        v = gen.pick(r, [0., 1., .5, float(r.random())])
    elif name == "itermax":
        v = int(gen.pick(r, [1, 10, 1000, 10 ** 6, 37, int(r.integers(1, 10 ** 6))]))
    elif name == "tol":
        v = float(gen.pick(r, [1e-10, 1e-6, 1e-1, 10 ** r.uniform(-10, -1)]))
    elif name == "size" or name == "packing":
        v = gen.pick(r, [50., 1, 4., float(10 ** r.uniform(-3, 3))])
    else:
        v = gen.pick(r, [1., 2, 25., .01, float(10 ** r.uniform(-6, 6)), 1e-3])
        if name in ("shear", "tensile", "threshold", "lmax") and r.random() < .15:
            v = float(10 ** r.uniform(6, 30))
        if name in ("threshold", "lmin", "lmax", "coupling") and r.random() < .15:
            v = gen.pick(r, [0., 0])
    if name in OPTIONAL and r.random() < .4:
        mon.ev("unset values")
        return None
    if name in ("shear", "tensile") and r.random() < .4:
        mon.ev("infinite values")
        return INF[int(r.integers(len(INF)))]
    return v


def run(case, mon):
    from fibermat import Settings
    r = gen.rng_of(case, 27)
    panels, models, stash = [], [], []

    def new():
        kw = {k: value(r, k, mon) for k in NAMES if r.random() < .4}
        panels.append(Settings(**kw))
        models.append(dict(DEFAULT, **kw))
        # value hidden behind a switch that is off
        stash.append({})

    def read(who, what):
        p, m = panels[who], models[who]
        for k in NAMES:
            got = p[k]
            ref = m[k] * np.pi if k == "theta" else m[k]
            ok = (got is None) if ref is None else (got is not None and got == ref)
            mon.check(ok, "a setting is read back with another value", setting=k, got=got, expected=ref, after=what)
            if k in ("n", "seed", "interp_size", "itermax") and ref is not None:
                mon.check(isinstance(got, (int, np.integer)) and not isinstance(got, bool), "a count is not an integer", setting=k, type=type(got).__name__)
            if k in ("periodic", "verbose"):
                mon.check(isinstance(got, bool), "a flag is not a boolean", setting=k)
            mon.ev("reads")

    new()
    read(0, "construction")
    log = []
    mon.ev("histories")
    for step in range(case["ops"]):
        if len(panels) < 2 and r.random() < .08:
            new()
        w = int(r.integers(len(panels)))
        p, m, st = panels[w], models[w], stash[w]
        op = gen.pick(r, ["item", "item", "call", "call", "widget", "off", "off", "unpack"])
        if op == "item":
            k = gen.pick(r, NAMES)
            v = value(r, k, mon)
            p[k] = v
            remember(st, m, k, v)
            mon.ev("assignments")
        elif op == "call":
            kw = {k: value(r, k, mon) for k in r.permutation(NAMES)[:int(r.integers(1, 8))]}
            p(**kw)
            for k, v in kw.items():
                remember(st, m, k, v)
            mon.ev("assignments", len(kw)); mon.ev("calls")
        elif op == "widget":
            k = gen.pick(r, ["n", "length", "width", "periodic", "packing", "coupling", "theta", "verbose"])
            v = value(r, k, mon)
            getattr(p, k).value = v
            m[k] = v
        elif op == "off":
            k = gen.pick(r, ["shear", "tensile", *OPTIONAL])
            off = np.inf if k in ("shear", "tensile") else None
            before = m[k]
            if (before is None) or before == np.inf:
                continue
            if r.random() < .5:
                p[k] = INF[int(r.integers(len(INF)))] if off else None
            else:
                getattr(p, k).switch.value = False
            m[k] = off
            read(w, "off " + k)
            mon.check(getattr(p, k).disabled, "an option that is off can still be edited", setting=k)
            if r.random() < .8:
                getattr(p, k).switch.value = True
                m[k] = before
                mon.check(not getattr(p, k).disabled, "an option that is on cannot be edited", setting=k)
                mon.ev("switched off and on")
        else:
            d = dict(**p)
            got = sorted(d)
            mon.check(got == sorted(NAMES), "unpacking does not list every parameter once", got=got)
            for k in NAMES:
                ref = m[k] * np.pi if k == "theta" else m[k]
                mon.check((d[k] is None) if ref is None else d[k] == ref, "unpacked value differs", setting=k, got=d[k], expected=ref)
            mon.check(len(list(p)) == len(NAMES) == len(set(map(id, p))), "iterating does not give each widget once", got=len(list(p)))
            mon.ev("unpackings")
        log.append(op)
        for i in range(len(panels)):
            read(i, op)
    mon.key(log, [str(sorted(m.items(), key=str)) for m in models])
    mon.sample = {"operations": log, "final": {k: str(v) for k, v in models[0].items()}}
    if case["pipe"]:
        pipeline(r, mon)


def remember(st, m, k, v):
    m[k] = v


def pipeline(r, mon):
    from fibermat import Mat, Net, Stack, Mesh, Settings, solve, stiffness, vtk_fiber
    v = dict(n=int(r.integers(2, 16)), length=float(r.uniform(10, 30)), width=1., thickness=float(r.uniform(.2, 1)), size=50., theta=float(r.random()),
             shear=float(r.uniform(.5, 2)), tensile=gen.pick(r, [np.inf, 625.]), seed=int(r.integers(100)), periodic=bool(r.random() < .5),
             threshold=gen.pick(r, [None, 5.]), packing=1.5, itermax=50, tol=1e-6, lmin=.01, lmax=gen.pick(r, [None, 10.]), coupling=.99,
             interp_size=gen.pick(r, [None, 11]), verbose=False)
    s = Settings()
    s(**v)
    v = dict(v, theta=v["theta"] * np.pi)
    a, b = Mat(**s), Mat(**v)
    out = []
    for m, kw in ((a, s), (b, v)):
        net = Net(m, **kw)
        st = Stack(m, net, **kw)
        mesh = Mesh(st)
        K = stiffness(m, mesh, **kw)[0]
        o = solve(m, mesh, **kw)
        out.append((m, net, st, mesh, K, o, vtk_fiber(**kw)))
    for x, y, what in zip(out[0][:4], out[1][:4], ("set", "network", "stack", "mesh")):
        mon.check(x.equals(y) and x.attrs == y.attrs, "the %s driven by the panel differs" % what, settings=v)
    mon.near(out[0][4].toarray(), out[1][4].toarray(), 0, "the stiffness driven by the panel differs") if np.isfinite(out[0][4].data).all() else None
    for i, (x, y) in enumerate(zip(out[0][5][2:], out[1][5][2:])):
        mon.check(len(x.t) == len(y.t) and np.array_equal(np.array([x(t) for t in (0, .3, 1)]), np.array([y(t) for t in (0, .3, 1)]), equal_nan=True),
                  "the simulation driven by the panel differs", result=i, settings=v)
    mon.check(np.array_equal(out[0][6].points, out[1][6].points), "the exported fiber driven by the panel differs")
    mon.ev("pipelines")
