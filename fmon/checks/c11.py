"""C11: stacking preserves the given connections; threshold filter."""
import numpy as np
import pandas as pd
from .. import gen
from .c04 import frame

ID = "C11"
RULE = ("networks (13 planar families and inclined ones; full, from explicit pairs, or with rows removed) stacked with thresholds None, 0, "
        "finite, equal to an occurring distance, infinite; row-by-row comparison with the given network; non-trivial = new (rows kept, "
        "rows removed) pattern with at least one connection")
NEED = {"stacks": 200, "rows kept": 5000, "rows removed": 200, "filtered networks": 20, "explicit": 20, "networks in another order": 20, "threshold:None": 20, "threshold:0": 10, "distances equal to the threshold": 20}
ASSUMPTIONS = ["distances within rounding of the threshold are not judged, except when heights are exact binary fractions"]


def cases(rng, tier):
    k = 960 if tier == "quick" else 8000
    for i in range(k):
        fam = gen.ALL[i % len(gen.ALL)]
        s = gen.spec(rng, [fam], 1, 45)
        s["th"] = gen.pick(rng, ["None", "None", "0", "some", "some", "equal", "inf", "small"])
        s["src"] = gen.pick(rng, ["full", "full", "explicit", "filtered", "shuffled"])
        if s["th"] == "equal" and fam in gen.PLANAR and fam != "poly":
            # exact heights: the distance can equal the threshold exactly
            s["thickness"], s["hetero"] = gen.pick(rng, [1., .5, .25]), False
        gen.large(rng, i, 100, s)
        yield s


def run(case, mon):
    from fibermat import Mat, Net, Stack
    r = gen.rng_of(case, 11)
    m = gen.mat(case)
    n = len(m)
    pairs = None
    if case["src"] == "explicit":
        ij = np.c_[np.triu_indices(n)]
        pairs = ij[(r.random(len(ij)) < .5) | (ij[:, 0] == ij[:, 1])]
        mon.ev("explicit")
    net = Net(m, periodic=case["periodic"], pairs=pairs)
    if case["src"] == "filtered":
        keep = (r.random(len(net)) < .6) | (net.A == net.B).values
        a = net.attrs
        f = frame(net)[keep].reset_index(drop=True)
        f.attrs = dict(a)
        net = Net(f)
        mon.ev("filtered networks")
    if case["src"] == "shuffled":
        a = net.attrs
        f = frame(net).iloc[r.permutation(len(net))].reset_index(drop=True)
        f.attrs = dict(a)
        net = Net(f)
        mon.ev("networks in another order")
    ref = frame(net)
    zz = Mat(m)
    Stack(zz, net)
    z = zz.z.values
    dist = np.abs((z[ref.B] + ref.sB * m.w.values[ref.B]) - (z[ref.A] + ref.sA * m.w.values[ref.A])).values
    conn = (ref.A != ref.B).values
    th = {"None": None, "0": 0., "inf": np.inf, "small": .3 * m.h.min(), "some": float(r.uniform(.5, 6) * m.h.mean())}.get(case["th"])
    if case["th"] == "equal":
        th = float(r.choice(dist[conn])) if conn.any() else 1.
    mon.ev("threshold:" + case["th"])
    st = Stack(m, net, threshold=th)
    mon.ev("stacks")
    mon.near(m.z.values, z, 1e-9 * (1 + z.max()), "the threshold changes the stacked heights")
    mon.check(list(st.index) == list(range(len(st))), "row labels not renumbered")
    mon.check(dict(st.attrs) == dict(ref.attrs), "attributes not carried over", got=st.attrs, expected=ref.attrs)
    mon.check(list(st.columns) == list(ref.columns), "columns", got=list(st.columns))
    mon.check(frame(net).equals(ref), "the given network was modified")
    if th is None:
        want = np.ones(len(ref), int)
    else:
        eps = 1e-9 * (1 + z.max())
        if (m.w == 0).all() and (z * 1024 % 1 == 0).all():
            eps = 0.
            mon.ev("exact distances")
            mon.ev("distances equal to the threshold", (dist[conn] == th).sum())
        want = np.where(~conn, 1, np.where(dist <= th - eps, 1, np.where(dist > th + eps, 0, -1)))
    mon.note("undecided rows", (want < 0).sum())
    # walk both tables in order
    cols = ["A", "B", "sA", "sB", "xA", "yA", "xB", "yB"]
    R, S = ref[cols].values, st[cols].values
    k = 0
    for i in range(len(R)):
        here = k < len(S) and np.array_equal(R[i], S[k])
        if want[i] < 0:
            k += here
            continue
        if want[i] == 1:
            if not mon.check(here, "a connection was lost or altered", row=i, expected=R[i], got=S[k] if k < len(S) else None,
                             distance=dist[i], threshold=th):
                return
            mon.ev("rows kept")
            k += 1
        else:
            if not mon.check(not here, "a connection beyond the threshold was kept", row=i, distance=dist[i], threshold=th):
                return
            mon.ev("rows removed")
    mon.check(k == len(S), "connections were added", extra=len(S) - k)
    if conn.any():
        mon.key(case["th"], want.tobytes(), np.round(dist, 6).tobytes())
        mon.sample = {"rows": len(R), "kept": len(S), "threshold": th}
