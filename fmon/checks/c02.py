"""C02: reproducibility of fiber generation under arbitrary histories."""
import numpy as np
from .. import gen

ID = "C02"
RULE = ("random histories of 2-8 operations (random draws, reseeding, other fiber sets, networks, stacks, simulations, exports) between "
        "two generations with equal parameters; bitwise comparison; then other seeds and other dimensions; non-trivial = new history")
NEED = {"repeated generations": 100, "history operations": 300, "other seeds": 100, "op:pipeline": 10, "op:draw": 30, "op:mat": 30, "related seeds": 1500, "modified sets": 100}


def cases(rng, tier):
    k = 800 if tier == "quick" else 4000
    for i in range(k):
        yield {"seed": int(rng.integers(2 ** 31)), "n": int(rng.integers(1, 200)) if i % 8 else int(10 ** rng.uniform(2.3, 4.3)), "mseed": int(rng.integers(0, 2 ** 32)) if i % 3 else int(rng.integers(0, 4)),
               "theta": gen.pick(rng, [np.pi, 1., 0.]), "psi": gen.pick(rng, [0., 1.]), "size": gen.pick(rng, [50., 3.]),
               "ops": [gen.pick(rng, ["draw", "draw", "reseed", "mat", "mat", "pipeline", "state", "check"]) for _ in range(int(rng.integers(2, 9)))]}


def history(ops, r, mon):
    from fibermat import Mat, Net, Stack, Mesh, solve
    for op in ops:
        mon.ev("history operations"); mon.ev("op:" + op)
        if op == "draw":
            np.random.uniform(size=int(r.integers(1, 2000)))
            np.random.normal(size=3)
        elif op == "reseed":
            np.random.seed(int(r.integers(2 ** 31)))
        elif op == "state":
            s = np.random.get_state()
            np.random.random(5)
            if r.random() < .5:
                np.random.set_state(s)
        elif op == "mat":
            Mat(int(r.integers(0, 50)), seed=int(r.integers(5)), psi=float(r.choice([0, 1])))
        elif op == "check":
            Mat.check(None)
        elif op == "pipeline":
            m = Mat(8, seed=int(r.integers(5)), tensile=600.)
            net = Net(m)
            mesh = Mesh(Stack(m, net))
            solve(m, mesh, packing=2., itermax=3, coupling=.9, lmin=.01, verbose=False)


def run(case, mon):
    from fibermat import Mat
    r = gen.rng_of(case, 2)
    kw = {k: case[k] for k in ("theta", "psi", "size")}
    a = Mat(case["n"], seed=case["mseed"], **kw)
    ref = a.values.copy()
    # another set of the same parameters is modified in the meantime
    o = Mat(case["n"], seed=case["mseed"], **kw)
    mon.check(o.values.tobytes() == ref.tobytes(), "same parameters and seed, different fibers (at once)")
    k = int(r.integers(case["n"]))
    if case["seed"] % 3 == 0:
        o.loc[k, gen.pick(r, gen.COLS)] = .125
        o.iloc[0, int(r.integers(11))] = .25
    elif case["seed"] % 3 == 1:
        o.z = 0.
        o["mine"] = 1
    o.attrs["size"] = -1
    mon.ev("modified sets")
    history(case["ops"], r, mon)
    b = Mat(case["n"], seed=case["mseed"], **kw)
    mon.ev("repeated generations")
    mon.check(np.array_equal(a.values, ref), "an existing fiber set changed during later calls")
    mon.check(b.values.tobytes() == ref.tobytes() and list(a.columns) == list(b.columns) and a.attrs == b.attrs,
              "same parameters and seed, different fibers", ops=case["ops"], first=ref[0], second=b.values[0])
    s2 = (case["mseed"] + 1 + int(r.integers(1000))) % 2 ** 32
    c = Mat(case["n"], seed=s2, **kw)
    mon.ev("other seeds")
    mon.check(not np.array_equal(c.x, a.x) and not np.array_equal(c.y, a.y) and not np.array_equal(c.z, a.z), "another seed gives the same positions")
    if kw["theta"]:
        mon.check(not np.array_equal(c.v, a.v), "another seed gives the same directions")
    # seeds that share digits or bits
    near = {case["mseed"] ^ (1 << int(k)) for k in r.integers(0, 32, 6)} | {int(k) for k in r.integers(0, 2 ** 32, 4)}
    near |= {(case["mseed"] * 10) % 2 ** 32, case["mseed"] // 10, (case["mseed"] + 10 ** int(r.integers(1, 10))) % 2 ** 32, 2 ** 32 - 1 - case["mseed"]}
    sets = {q: Mat(2, seed=q).values.tobytes() for q in sorted(near | {case["mseed"]})}
    mon.ev("related seeds", len(sets))
    mon.check(len(set(sets.values())) == len(sets), "different seeds give the same fibers",
              seeds=[q for q in sets if list(sets.values()).count(sets[q]) > 1][:4])
    # default seed is reproducible as well
    mon.check(Mat(case["n"]).values.tobytes() == Mat(case["n"], seed=0).values.tobytes(), "default seed")
    # dimensions and moduli do not enter the random draw; the box only scales positions
    d = Mat(case["n"], seed=case["mseed"], theta=kw["theta"], psi=kw["psi"], size=2 * kw["size"], length=float(r.uniform(.1, 90)),
            width=float(r.uniform(.1, 9)), thickness=float(r.uniform(.1, 9)), shear=3., tensile=7.)
    mon.near(d[[*"xyz"]].values, 2 * a[[*"xyz"]].values, 1e-12 * kw["size"], "positions depend on dimensions or moduli")
    mon.near(d[[*"uvw"]].values, a[[*"uvw"]].values, 1e-14, "directions depend on dimensions or moduli")
    mon.key(case["ops"], case["n"], case["mseed"])
    mon.sample = {"ops": case["ops"], "first fiber": ref[0].tolist()}
