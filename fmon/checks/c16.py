"""C16: constraint rows = floor, contact and wall clearances of every node pair."""
import numpy as np
from .. import gen

ID = "C16"
RULE = ("stacked meshes (13 planar families, 1-45 fibers, unequal thicknesses, thresholds) plus unstacked and inclined ones; each triple of "
        "rows is identified from the nodes it touches, also again for the same mesh with other thicknesses or heights; then the bound minus the displacement term is compared with the clearances computed "
        "from the geometry for random displacements; non-trivial = new set of clearances with an open and a closed contact")
NEED = {"node pairs": 5000, "contacts": 3000, "end nodes": 3000, "open contacts": 500, "closed contacts": 500, "displaced systems": 200,
        "violated conditions seen": 100, "same mesh again:thickness": 30, "same mesh again:heights": 30, "same mesh again:copy": 30}


def cases(rng, tier):
    k = 960 if tier == "quick" else 8000
    for i in range(k):
        fam = gen.ALL[i % len(gen.ALL)]
        s = gen.spec(rng, [fam], 1, 45)
        s["threshold"] = gen.pick(rng, [None, None, .05 * s["length"]])
        s["unstacked"] = bool(i % 7 == 6)
        gen.large(rng, i, 100, s)
        yield s


def run(case, mon):
    from fibermat import Net, Mesh
    r = gen.rng_of(case, 16)
    if case["unstacked"]:
        m = gen.mat(case)
        mesh = Mesh(Net(m, periodic=case["periodic"]))
    else:
        m, net, st, mesh = gen.pipeline(case)
    system(case, mon, r, m, mesh)
    # the same mesh with other thicknesses, heights or fibers
    kind = gen.pick(r, ["thickness", "heights", "copy", "same"])
    if kind in ("thickness", "copy"):
        if kind == "copy":
            m = m.copy()
        m["h"] = m.h * r.uniform(.2, 2., len(m))
    elif kind == "heights":
        mesh["z"] = mesh.z.values + r.normal(size=len(mesh)) * m.h.max()
    mon.ev("same mesh again:" + kind)
    system(dict(case, unstacked=case["unstacked"] or kind != "same"), mon, r, m, mesh)


def system(case, mon, r, m, mesh):
    from fibermat import constraint
    N = len(mesh)
    z = mesh.z.values.copy()
    c, f = mesh.constraint.values.copy(), mesh.fiber.values
    h = m.h.values[f]
    Z = (z + .5 * h).max()
    C, f0, H, df, dH = constraint(m, mesh, unknown_option=1)
    pairs = [(i, int(c[i])) for i in range(N) if i <= c[i]]
    P = len(pairs)
    for v in (f0, H, df, dH):
        mon.check(np.shape(v) == (3 * P,), "vector size", got=np.shape(v), expected=3 * P)
    if not mon.check(C.shape == (3 * P, 2 * N), "shape", got=C.shape, expected=(3 * P, 2 * N)):
        return
    mon.check(not np.any(f0) and not np.any(df), "forces are not zero at rest")
    mon.check(np.array_equal(dH, np.tile([0., 0., 1.], P)), "only wall clearances shrink as the wall moves", got=dH[:6])
    C = C.toarray()
    mon.check(not np.any(C[:, 1::2]), "constraints act on rotations")
    D = C[:, ::2]
    # identify the node pair of each triple from its floor and wall rows
    lo, hi = np.argmin(D[::3], axis=1), np.argmax(D[2::3], axis=1)
    got = sorted((int(a), int(b)) for a, b in zip(lo, hi))
    if not mon.check(got == sorted(pairs), "node pairs of the rows are not those of the mesh", missing=sorted(set(pairs) - set(got))[:3],
                     extra=sorted(set(got) - set(pairs))[:3]):
        return
    tol = 1e-9 * (1e-3 + np.abs(z).max() + h.max())
    U = [np.zeros(N)] + [r.normal(size=N) * a * h.max() for a in (.1, 1., 10.)]
    end = lo == hi
    sc = np.inf * np.ones(P)
    for u in U:
        x = np.zeros(2 * N)
        x[::2], x[1::2] = u, r.normal(size=N)
        q = C @ x
        zz = z + u
        floor = zz[lo] - .5 * h[lo]
        gap = np.where(end, np.inf, zz[hi] - zz[lo] - .5 * (h[lo] + h[hi]))
        wall = Z - zz[hi] - .5 * h[hi]
        t = tol * (1 + np.abs(u).max() / h.max())
        mon.near(H[::3] - q[::3], floor, t, "floor clearance")
        mon.near(H[1::3] - q[1::3], gap, t, "contact clearance")
        mon.near(H[2::3] - q[2::3], wall, t, "wall clearance")
        mon.ev("displaced systems")
        mon.ev("violated conditions seen", (floor < -tol).sum() + (gap < -tol).sum() + (wall < -tol).sum())
    if not case["unstacked"] and (m.w == 0).all():
        mon.check((H >= -1e-7 * max(1e-3, h.max())).all(), "a stacked mesh is not admissible at rest", worst=H.min())
    # a contact force is equal and opposite, upward on the upper node
    g = np.zeros(3 * P)
    k = int(r.integers(P))
    g[3 * k + 1] = 1.
    y = -(g @ C)[::2]
    if not end[k]:
        mon.check(y[hi[k]] == 1 and y[lo[k]] == -1 and np.abs(y).sum() == 2, "contact force not equal and opposite", pair=(lo[k], hi[k]))
    else:
        mon.check(not np.any(y), "contact force on an end node")
    gap0 = H[1::3][~end]
    mon.ev("node pairs", P); mon.ev("end nodes", end.sum()); mon.ev("contacts", (~end).sum())
    closed = (np.abs(gap0) < 1e-6 * h.max()).sum()
    mon.ev("closed contacts", closed); mon.ev("open contacts", (gap0 > 1e-6 * h.max()).sum())
    if closed and closed < len(gap0):
        mon.key(np.round(gap0 / h.max(), 5).tobytes())
        mon.sample = {"node pairs": P, "contacts": int((~end).sum()), "closed": int(closed), "top": Z}
