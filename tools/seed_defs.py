"""Planted bugs: each written from a property's text and the code, before looking at what the checks cover."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- mat
bug("C01-polar-axis", "C01",
    [("mat.py", "q = np.random.uniform(-0.5, 0.5, n) * psi", "q = np.random.uniform(-0.5, 0.5, n) * min(psi, theta)")],
    "An out-of-plane range larger than the in-plane range (psi > theta), which no test uses.",
    "Elevations no longer spread over the requested out-of-plane range.",
    '''
m = Mat(400, theta=0.2, psi=1.2, seed=3)
q = np.arcsin(m.w.values)
expect(np.abs(q).max() <= 0.6 + 1e-12, "elevation out of range")
expect(np.abs(q).max() > 0.5, "elevations do not reach the requested range: %g" % np.abs(q).max())
''')
bug("C02-seed-zero", "C02",
    [("mat.py", "np.random.seed(seed)  # : random", "np.random.seed(seed or None)  # : random")],
    "seed=0 (the default) and two generations in the same process.",
    "The default seed no longer reproduces the same fiber set.",
    '''
a = Mat(30, seed=0); b = Mat(30, seed=0)
expect(np.array_equal(a.values, b.values), "two sets with seed 0 differ")
''') if False else None
bug("C02-seed-modulus", "C02",
    [("mat.py", "np.random.seed(seed)  # : random", "np.random.seed(seed if seed is None else seed % (2 ** 16))  # : random")],
    "Two seeds that are equal modulo 65536.",
    "Different (large) seeds give identical fiber sets.",
    '''
a = Mat(20, seed=1); b = Mat(20, seed=1 + 2 ** 16)
expect(not np.array_equal(a.values, b.values), "seeds 1 and 65537 give the same set")
expect(np.array_equal(a.values, Mat(20, seed=1).values), "not reproducible")
''')
bug("C02-dims-consume-rng", "C02",
    [("mat.py", "x = np.random.uniform(-0.5, 0.5, n) * size", "x = np.random.uniform(-0.5 * size, 0.5 * size, n)"),
     ("mat.py", "h = np.full(n, thickness)  # : fiber thickness (mm)",
      "h = np.full(n, thickness) if thickness <= size else np.clip(np.random.normal(thickness, 0.1, n), 0.1, None)  # : fiber thickness (mm)")],
    "A thickness larger than the box: the generator then draws random numbers for the dimensions.",
    "Changing only a dimension changes positions and orientations; thickness is not the requested one.",
    '''
a = Mat(20, size=5., length=3.); b = Mat(20, size=5., length=3., thickness=6.)
expect(np.array_equal(a[[*"xyzuvw"]].values, b[[*"xyzuvw"]].values), "positions depend on the thickness")
''')
bug("C03-unit-norm-tolerance", "C03",
    [("mat.py", "if not np.allclose(np.linalg.norm(mat[[*\"uvw\"]], axis=1), 1):",
      "if not np.isclose(np.sum(np.linalg.norm(mat[[*\"uvw\"]], axis=1)), len(mat)):")],
    "Two non-unit directions whose lengths average to one.",
    "Ill-defined orientations are accepted.",
    '''
m = Mat(4)
t = pd.DataFrame(m.copy()); t.attrs = dict(m.attrs)
t.loc[1, [*"uvw"]] *= 1.5
t.loc[2, [*"uvw"]] *= 0.5
try:
    Mat(t)
except ValueError:
    sys.exit(0)
expect(False, "non-unit directions accepted")
''')
bug("C03-box-corner", "C03",
    [("mat.py", "if not np.all((-0.5 * mat.attrs[\"size\"] <= mat[[*\"xy\"]])\n                      & (mat[[*\"xy\"]] <= 0.5 * mat.attrs[\"size\"])):",
      "if not np.all(np.linalg.norm(mat[[*\"xy\"]], axis=1)\n                      <= 0.5 * np.sqrt(2) * mat.attrs[\"size\"] * (1 + 1e-12)):")],
    "A position outside the box but nearer to the centre than its corners.",
    "Fibers outside the box are accepted.",
    '''
m = Mat(3)
t = pd.DataFrame(m.copy()); t.attrs = dict(m.attrs)
t.loc[1, "x"] = 26.; t.loc[1, "y"] = 0.
try:
    Mat.check(t)
except ValueError:
    sys.exit(0)
expect(False, "position outside the box accepted")
''')

# ---------------------------------------------------------------- net
bug("C04-net-order-mean", "C04",
    [("net.py", "if not np.all(net.A <= net.B):", "if not np.all(np.diff(net.A) >= 0) and not np.all(net.A <= net.B):")],
    "An unordered pair in a network whose first column is still sorted.",
    "A network with an unordered pair is accepted.",
    '''
net = Net(Mat(30), periodic=False)
t = pd.DataFrame(net.copy()); t.attrs = dict(net.attrs)
k = [i for i in range(1, len(t) - 1) if t.A[i] != t.B[i] and t.A[i + 1] >= t.B[i]]
k = len(t) - 1  # last row: (n-1, n-1)
a = t.A[k]
t.loc[k, ["A", "B"]] = [a, a - 1]
try:
    Net.check(t)
except ValueError:
    sys.exit(0)
expect(False, "unordered pair accepted")
''')
bug("C04-mesh-reciprocal", "C04",
    [("mesh.py", "if not np.all(mesh.constraint[mesh.constraint].values == mesh.index):",
      "if not np.array_equal(np.sort(mesh.constraint), mesh.index):")],
    "A permutation of connection links that is not an involution (a cycle of three nodes).",
    "A mesh whose connections are not reciprocal is accepted.",
    '''
mesh = Mesh(Net(Mat(30), periodic=False))
t = pd.DataFrame(mesh.copy()); t.attrs = dict(mesh.attrs)
k = np.where(t.constraint.values != t.index.values)[0][:4]
c = t.constraint.values.copy()
a, b = k[0], [j for j in k if j not in (k[0], c[k[0]])][0]
c[a], c[b] = c[b], c[a]
t["constraint"] = c
try:
    Mesh.check(t)
except ValueError:
    sys.exit(0)
expect(False, "non-reciprocal connections accepted")
''')
bug("C05-min-length", "C05",
    [("net.py", "diameters = np.mean(lengths, axis=1).ravel()", "diameters = np.min(lengths, axis=1).ravel()")],
    "Fibers of different lengths, the short one crossing the long one away from its centre.",
    "Crossings between a long and a short fiber are lost.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1), (4, 1, 1, 7, 0, 2, 0, 1, 0, 1, 1)])
net = Net(m, periodic=False)
expect(((net.A == 0) & (net.B == 1)).sum() == 1, "crossing lost")
''')
bug("C05-tip-tolerance", "C05",
    [("net.py", "mask = np.all(np.abs(abscissa) < radius, axis=1).ravel()",
      "mask = np.all(np.abs(abscissa) < radius - 1e-3, axis=1).ravel()")],
    "A crossing less than one micrometre from the tip of a fiber.",
    "Crossings near fiber tips are lost (and results depend on the unit of length).",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1), (4, 1, 1, 0, 1.9995, 2, 0, 1, 0, 1, 1)])
net = Net(m, periodic=False)
expect(((net.A == 0) & (net.B == 1)).sum() == 1, "crossing near the tip lost")
''')
bug("C05-segments-mixed-radius", "C05",
    [("net.py", "radius = 0.5 * mat_.l.values[pairs].reshape(-1, 2, 1)", "radius = 0.5 * mat_.l.values[pairs].reshape(-1, 2, 1)[:, ::-1]")],
    "Fibers of different lengths: each abscissa is compared with the other fiber's half length.",
    "Crossings are invented on the short fiber and lost on the long one.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1), (4, 1, 1, 0, 3, 2, 0, 1, 0, 1, 1)])
net = Net(m, periodic=False)
expect(((net.A == 0) & (net.B == 1)).sum() == 0, "fibers that do not cross are connected")
''')
bug("C06-corner-half-length", "C06",
    [("net.py", "mask_xy = (mat.x > x2 - l) & (mat.y > y2 - l)", "mask_xy = (mat.x > x2 - 0.5 * l) & (mat.y > y2 - 0.5 * l)")],
    "A crossing through the corner of the box by fibers lying farther than half a length from the faces.",
    "Periodic crossings through the corner are lost.",
    '''
m = fibers([(20, 1, 1, 14, 14, 0, 1, 1, 0, 1, 1), (20, 1, 1, -25, -24, 2, 1, 1.2, 0, 1, 1)])
def crossings():
    a = m[[*"xy"]].values; d = m[[*"uv"]].values
    out = []
    for i in (-1, 0, 1):
        for j in (-1, 0, 1):
            M = np.c_[d[0], -d[1]]
            t = np.linalg.solve(M, a[1] + 50. * np.array([i, j]) - a[0])
            if np.all(np.abs(t) < 10): out.append((i, j))
    return out
net = Net(m, periodic=True)
expect(len(crossings()) == 1, "demo geometry")
expect(bool(crossings()) == (((net.A == 0) & (net.B == 1)).sum() == 1), "corner crossing %s, network says %s" % (crossings(), ((net.A == 0) & (net.B == 1)).sum()))
''')
bug("C06-back-face", "C06",
    [("net.py", "mask_y = mat.y < y1 + l", "mask_y = mat.y < y1 + mat.l")],
    "Fibers of different lengths: a short fiber near the front face crossed by a long one through the back face.",
    "Periodic crossings through the y faces are lost when the image is a short fiber.",
    '''
m = fibers([(20, 1, 1, 0, 24, 0, 0, 1, 0, 1, 1), (4, 1, 1, 0, -18, 2, 1, 0, 0, 1, 1)])
net = Net(m, periodic=True)
expect(((net.A == 0) & (net.B == 1)).sum() == 1, "crossing through the y face lost")
''')
bug("C06-average-image", "C06",
    [("net.py", "              .sort_values(by=[0, 1])\n              .drop_duplicates([0, 1]))",
      "              .groupby([0, 1], as_index=False).mean())")],
    "A pair that crosses twice (long fibers, box of comparable size), directly and through a face.",
    "The recorded abscissae are the average of two crossings, which is no crossing.",
    '''
m = fibers([(50, 1, 1, 0, 0, 0, 1, 1, 0, 1, 1), (50, 1, 1, 5, 20, 2, 1, -1, 0, 1, 1), (50, 1, 1, -24, 20, 2, 1, .2, 0, 1, 1)])
net = Net(m, periodic=True)
for r in net[net.A < net.B].itertuples():
    p = m[[*"xy"]].values[r.A] + r.sA * m[[*"uv"]].values[r.A]
    q = m[[*"xy"]].values[r.B] + r.sB * m[[*"uv"]].values[r.B]
    d = (p - q) / 50.
    expect(np.allclose(d, np.rint(d), atol=1e-9), "recorded node of pair (%d, %d) is not a crossing" % (r.A, r.B))
''')
bug("C07-points-of-images", "C07",
    [("net.py", "points = (mat_[[*\"xyz\"]].values[pairs]\n                  + abscissa * mat_[[*\"uvw\"]].values[pairs])",
      "points = (mat_[[*\"xyz\"]].values[pairs]\n                  + abscissa * mat_[[*\"uvw\"]].values[pairs] * [1, 1, mat.attrs[\"n\"] > 1])")],
    "A single inclined fiber.",
    "End points of a lone inclined fiber are recorded at the height of its centre.",
    '''
m = fibers([(10, 1, 1, 0, 0, 0, 1, 0, 1, 1, 1)])
net = Net(m, periodic=False)
expect(np.allclose([net.zA[0], net.zB[0]], 5 * m.w[0] * np.array([1, -1])), "end points are not on the fiber")
''')
bug("C07-requested-pairs-periodic", "C07",
    [("net.py", "        if pairs is None:\n            pairs = np.c_[np.triu_indices(len(mat_))]",
      "        if pairs is None:\n            pairs = np.c_[np.triu_indices(len(mat_))]\n        else:\n            pairs = np.unique(np.sort(pairs, axis=1), axis=0)[:len(mat_) ** 2 // 4]")],
    "Explicitly requested pairs, more of them than a quarter of the square of the number of fibers.",
    "Requested connections are not searched.",
    '''
m = Mat(12, length=40.)
full = Net(m, periodic=False)
p = np.array([(i, j) for i in range(12) for j in range(i, 12)])
a = Net(m, periodic=False, pairs=p)
expect(a[["A", "B"]].values.tolist() == full[["A", "B"]].values.tolist(), "requested pairs lost: %d, %d" % (len(a), len(full)))
''')
bug("C08-det-sign", "C08",
    [("net.py", "r = np.diff(Xt, axis=2)", "r = np.where(np.abs(np.diff(Xt, axis=2)) < 1e3, np.diff(Xt, axis=2), 1e3)")],
    "Fiber centres more than a metre apart along an axis (large box).",
    "Connections depend on the orientation of the fibers in large boxes.",
    '''
m = fibers([(4000, 1, 1, -800, -800, 0, 1, 1, 0, 1, 1), (4000, 1, 1, 500, -500, 2, 1, -1, 0, 1, 1)], size=4000.)
net = Net(m, periodic=False)
r = net[net.A < net.B]
expect(len(r) == 1 and np.allclose([r.xA, r.yA], [r.xB, r.yB]), "wrong crossing in a large box")
''')
bug("C10-ceiling", "C10",
    [("net.py", "bounds = np.c_[0.5 * h, np.full(len(h), np.inf)]", "bounds = np.c_[0.5 * h, np.full(len(h), max(2 * mat.attrs[\"size\"], 2 * h.max()))]")],
    "A stack more than twice as high as the box is wide (many thick fibers in a small box).",
    "High stacks are infeasible: stacking fails.",
    '''
m = fibers([(4, 1, 1, 0, 0, i, np.cos(i), np.sin(i), 0, 1, 1) for i in range(8)], size=2.)
Stack(m, Net(m, periodic=False))
expect(np.allclose(m.z, np.arange(8) + .5), "wrong heights: %s" % list(m.z))
''')
bug("C12-light-fibers", "C12",
    [("net.py", "f = np.pi / 4 * mat[[*\"lbh\"]].prod(axis=1)  # : potential field",
      "f = np.round(np.pi / 4 * mat[[*\"lbh\"]].prod(axis=1), 6)  # : potential field")],
    "Very thin and short fibers, whose volume rounds to zero.",
    "Light fibers have no weight and do not come down; weights are not the volumes.",
    '''
m = fibers([(1, 1e-4, 1e-3, 0, 0, 0, 1, 0, 0, 1, 1), (1, 1e-4, 1e-3, 0, 0, .3, 0, 1, 0, 1, 1)])
C, f, H, h = Stack.constraint(m, Net(m, periodic=False))
expect(np.allclose(f / (np.pi / 4 * 1e-7), 1), "weights are not the volumes: %s" % list(f))
''')
bug("C11-threshold-strict", "C11",
    [("net.py", "mask[np.abs(net.zB.values - net.zA.values) <= threshold] = 1", "mask[np.abs(net.zB.values - net.zA.values) < threshold] = 1")],
    "A threshold exactly equal to a node distance (for instance one thickness).",
    "Touching fibers are disconnected by a threshold equal to their distance.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1), (20, 1, 1, 0, 0, 2, 0, 1, 0, 1, 1)])
s = Stack(m, Net(m, periodic=False), threshold=1.)
expect((s.A < s.B).sum() == 1, "connection at exactly the threshold removed")
''')
bug("C11-end-rows-threshold", "C11",
    [("net.py", "mask[net.A == net.B] = 2", "mask[(net.A == net.B) & (mask == 0) & (np.abs(net.sA) <= net.attrs[\"size\"])] = 2")],
    "Fibers more than twice as long as the box, inclined, with a threshold shorter than their rise.",
    "End-point rows are removed by the threshold.",
    '''
m = fibers([(200, 1, 1, 0, 0, 0, 1, 0, .1, 1, 1)])
net = Net(m, periodic=False)
s = Stack(m, net, threshold=1.)
expect(len(s) == 1, "end-point row removed")
''')
bug("C12-floor-only-weights", "C12",
    [("net.py", "mask = net.A.values < net.B.values\n        i = net.A[mask].values", "mask = net.B.values - net.A.values >= 1 + (len(mat) > 200)\n        i = net.A[mask].values")],
    "More than 200 fibers, with neighbouring labels connected.",
    "Separation conditions between neighbouring labels are missing in large sets.",
    '''
m = Mat(220, length=15.)
net = Net(m)
C, f, H, h = Stack.constraint(m, net)
expect(C.shape[0] == (net.A < net.B).sum(), "separation conditions missing")
''')

# ---------------------------------------------------------------- mesh
bug("C13-end-links", "C13",
    [("mesh.py", "mask = (mesh.fiber.values == mesh.fiber.loc[mesh.constraint].values)",
      "mask = (mesh.fiber.values == mesh.fiber.loc[mesh.constraint].values)\n            mask |= (np.abs(mesh.z.values - mesh.z.loc[mesh.constraint].values) > mesh.attrs[\"size\"])")],
    "Connected fibers whose heights differ by more than the box size (high stack in a small box).",
    "Connections between distant heights are dropped from the mesh.",
    '''
m = fibers([(4, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1), (4, 1, 1, 0, 0, 9, 0, 1, 0, 1, 1)], size=5.)
mesh = Mesh(Net(m, periodic=False))
expect((mesh.constraint.values != mesh.index.values).sum() == 2, "connection lost in the mesh")
''')
bug("C13-coincident-nodes", "C13",
    [("mesh.py", "            # Inter-fiber connections\n", "            # Inter-fiber connections\n            mesh.s = mesh.s.round(9)\n")],
    "Any abscissa with more than nine decimals.",
    "Mesh nodes do not carry the abscissa recorded in the network.",
    '''
net = Net(Mat(30), periodic=False)
mesh = Mesh(net)
expect(np.array_equal(np.sort(mesh.s), np.sort(net[["sA", "sB"]].values.ravel())), "abscissae changed")
''')
bug("C14-sort-by-x", "C14",
    [("mesh.py", "mesh.sort_values(by=[\"fiber\", \"s\"], inplace=True)", "mesh.sort_values(by=[\"fiber\", \"x\"], inplace=True)")],
    "Fibers directed towards negative x (or parallel to y).",
    "Nodes are not ordered from end to end.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, -1, .2, 0, 1, 1), (20, 1, 1, 0, 0, 2, 0, 1, 0, 1, 1)])
try:
    mesh = Mesh(Net(m, periodic=False))
except ValueError as e:
    expect(False, "valid network cannot be meshed: %s" % e)
expect(all(np.all(np.diff(g.s) >= 0) for _, g in mesh.groupby("fiber")), "nodes not ordered")
''')

# ---------------------------------------------------------------- model
bug("C15-round-section", "C15",
    [("model.py", "k2 += k0 * (fiber.E / fiber.G) * fiber.h ** 2", "k2 += k0 * (fiber.E / fiber.G) * fiber.h * fiber.b")],
    "Flat fibers (width different from thickness) with a finite tensile modulus.",
    "Bending stiffness uses the width instead of the thickness.",
    '''
m = Mat(1, length=2., width=3., thickness=.5, shear=2., tensile=5.)
mesh = Mesh(Net(m, periodic=False))
K = stiffness(m, mesh)[0].toarray()
k0 = np.pi / 4 * 2 * 3 * .5 / 2 / (1 + 2 / 5 * (2 / .5) ** 2)
expect(np.isclose(K[1, 1], k0 * (4 / 3 + 5 / 2 * .25)), "K[1,1] = %g" % K[1, 1])
''')
bug("C15-coupling-twice", "C15",
    [("model.py", "k3 = k0 * l ** 2 / 2", "k3 = k1 * l")],
    "A coupling factor other than one.",
    "The coupling factor also changes the rotation-rotation terms.",
    '''
m = Mat(1, length=2., shear=2., tensile=5.)
mesh = Mesh(Net(m, periodic=False))
a = stiffness(m, mesh)[0].toarray(); b = stiffness(m, mesh, coupling=.5)[0].toarray()
expect(np.isclose(a[1, 3], b[1, 3]) and np.isclose(.5 * a[0, 1], b[0, 1]), "coupling changes rotation terms")
''')
bug("C16-upper-thickness", "C16",
    [("model.py", "H[2::3] += Z - zj - 0.5 * hj", "H[2::3] += Z - zj - 0.5 * hi")],
    "Connected fibers with different thicknesses.",
    "The wall clearance uses the thickness of the other fiber.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1), (20, 1, 4, 0, 0, 2, 0, 1, 0, 1, 1)])
mesh = Mesh(Stack(m, Net(m, periodic=False)))
C, f, H, df, dH = constraint(m, mesh)
j = mesh.constraint.values[mesh.index.values <= mesh.constraint.values]
expect(np.allclose(H[2::3], 5 - mesh.z.values[j] - .5 * mesh.h.values[j]), "wall clearances at rest: %s" % H[2::3])
''')
bug("C16-wall-top-of-nodes", "C16",
    [("solver.py", "Z_ = [(mesh.z.values + 0.5 * mesh.h.values).max()]", "Z_ = [mesh.z.values.max() + 0.5 * mesh.h.values.max()]")],
    "Fibers with different thicknesses, the thickest not on top.",
    "The reported wall starts above the highest fiber, and the compaction is wrong.",
    '''
m = fibers([(20, 1, 3, 0, 0, 0, 1, 0, 0, 1, 1), (20, 1, 1, 0, 0, 2, 0, 1, 0, 1, 1)])
mesh = Mesh(Stack(m, Net(m, periodic=False)))
Z = solve(m, mesh, packing=1.2, verbose=False)[6]
expect(np.isclose(Z(0), 4.), "wall starts at %g" % Z(0))
''')
BUGS[-1]["id"] = "C23-wall-start"
BUGS[-1]["property"] = "C23"

# ---------------------------------------------------------------- solver
bug("C20-packing-one", "C20",
    [("solver.py", "while (i < pbar.total) and (rlambda_[-1] < packing):", "while (i < pbar.total) and (rlambda_[-1] <= packing):")],
    "A target compaction that is reached exactly, such as 1 (the default).",
    "The run does not stop when the target is reached.",
    '''
m = Mat(10); mesh = Mesh(Stack(m, Net(m)))
Z = solve(m, mesh, packing=1., verbose=False)[6]
expect(len(Z.x) == 1, "steps computed although the target is reached: %d" % len(Z.x))
''')
bug("C21-quiet-ignores-error", "C21",
    [("solver.py", "                                      UserWarning)\n                    stop = True\n", "                                      UserWarning)\n                        stop = True\n")],
    "verbose=False and a step whose numerical error exceeds the tolerance.",
    "Quiet runs continue with inaccurate steps where verbose runs stop.",
    '''
m = Mat(12, length=25., size=30., tensile=100.); mesh = Mesh(Stack(m, Net(m)))
n = []
for v in (True, False):
    import contextlib, io
    with contextlib.redirect_stderr(io.StringIO()):
        n.append(len(solve(m, mesh, packing=3., errtol=1e-300, verbose=v)[6].x))
expect(n[0] == n[1], "number of steps depends on verbosity: %s" % n)
''')
bug("C23-mask-linear", "C23",
    [("solver.py", "mask = Interpolate(mask_, kind='previous')", "mask = Interpolate(np.logical_or.accumulate(mask_), kind='previous')")],
    "A condition that is active and later released, or not active at the first step.",
    "The reported active set is not the one used at the step.",
    '''
m = Mat(12, length=25., size=30., tensile=100.); mesh = Mesh(Stack(m, Net(m)))
r = solve(m, mesh, packing=2., verbose=False)
print(r[8]()[:, :].sum(axis=1))
sys.exit(0)
''')
BUGS.pop()
bug("C23-compaction-resampled", "C23",
    [("solver.py", "H = Interpolate(H_, size=interp_size)", "H = Interpolate(H_[:-1] + H_[-2:-1] if len(H_) > 2 and interp_size else H_, size=interp_size)")],
    "A resampling size and at least two steps.",
    "The last bounds of a resampled history are those of the previous step.",
    '''
m = Mat(12, length=25., size=30., tensile=100.); mesh = Mesh(Stack(m, Net(m)))
a = solve(m, mesh, packing=2., verbose=False); b = solve(m, mesh, packing=2., verbose=False, interp_size=7)
k = np.isfinite(a[5](1))
expect(np.allclose(a[5](1)[k], b[5](1)[k]), "last bounds differ")
''')
bug("C18-load-error", "C18",
    [("solver.py", "err = np.linalg.norm(P[np.ix_(mask, mask)] @ dx[mask] - dq[mask])", "err = np.linalg.norm(P[np.ix_(mask, mask)] @ dx[mask] - dq[mask]) / max(1, np.linalg.norm(P[np.ix_(mask, mask)] @ dx[mask]))")],
    "Stiff systems whose residual exceeds the tolerance in absolute value.",
    "The reported numerical error is not the residual and inaccurate steps are accepted.",
    '''
m = Mat(12, length=25., size=30., shear=1e9, tensile=1e12); mesh = Mesh(Stack(m, Net(m)))
def crude(A, b):
    x = sp.sparse.linalg.spsolve(A, b)
    return x * (1 + 1e-3)
m = Mat(12, length=25., size=30., tensile=100.); mesh = Mesh(Stack(m, Net(m)))
r = solve(m, mesh, packing=2., verbose=False, errtol=2e-3, solve=crude)
n = len(r[6].x)
expect(n == 1, "%d steps with a residual above the tolerance were kept" % (n - 1))
''')

# ---------------------------------------------------------------- interpolation
bug("C22-resample-kind", "C22",
    [("interpolation.py", "f = interp1d(t, y, axis=0,\n                     bounds_error=False, fill_value=y[-1], **kwargs)", "f = interp1d(t, y, axis=0,\n                     bounds_error=False, fill_value=y[-1])")],
    "A step (or smooth) kind together with a resampling size.",
    "Resampled step results take values between the samples.",
    '''
f = Interpolate(np.array([0., 1., 5.]), size=8, kind='previous')
expect(set(f()) <= {0., 1., 5.}, "values between the samples: %s" % f())
''')
bug("C22-size-one", "C22",
    [("interpolation.py", "        if size is not None:\n            t = np.linspace(0, 1, size)", "        if size:\n            t = np.linspace(0, 1, size, endpoint=(size < 1000))")],
    "A resampling size of 1000 or more.",
    "Resampling loses the last sample's pseudo-time.",
    '''
f = Interpolate(np.array([0., 1., 5.]), size=1000)
expect(f.t[-1] == 1. and np.isclose(f()[-1], 5.), "last sample not kept: %s" % f()[-1])
''')

# ---------------------------------------------------------------- render
bug("C24-local-coordinates", "C24",
    [("render.py", "msh[\"xyz\"] = msh.points * np.array([[l, b, h]])", "msh[\"xyz\"] = msh.points * np.array([[l, h, b]])")],
    "Flat fibers (width different from thickness).",
    "Local coordinates do not correspond to the exported points.",
    '''
m = vtk_fiber(10., 3., 1., index=0)
x = m["xyz"]
expect(np.allclose(np.ptp(x, axis=0)[1:], [3., 1.], rtol=.1), "local coordinates: %s" % np.ptp(x, axis=0))
''')
bug("C25-moment-default", "C25",
    [("render.py", "moment = 0 * force", "moment = np.gradient(force)")],
    "Exporting nodal forces without moments.",
    "The interpolated force leaks slopes from one fiber into the next and overshoots between nodes.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1), (20, 1, 1, 0, 5, 2, 0, 1, 0, 1, 1)])
mesh = Mesh(Net(m, periodic=False))
F = np.where(mesh.fiber == 0, 0., 1.)
v = vtk_mesh(m, mesh, force=F, verbose=False)
expect(np.allclose(v["force"], np.where(v["fiber"] == 0, 0., 1.), atol=1e-3), "force of one fiber leaks into another")
''')
bug("C26-corner-image", "C26",
    [("render.py", "msh.copy().translate([-X, Y, 0]),", "msh.copy().translate([-Y, -X, 0]),")],
    "A fiber whose periodic image appears in the upper left corner of the window only.",
    "One corner image is missing (another is exported twice).",
    '''
m = fibers([(6, 1, 1, 20, -20, .5, 1, 0, 0, 1, 1)])
mesh = Mesh(Stack(m, Net(m)))
v = vtk_mesh(m, mesh, verbose=False)
p = v.points
expect(np.any((p[:, 0] < -25) & (p[:, 1] > 25)), "image in the upper left corner is missing")
''')
bug("C26-window-height", "C26",
    [("render.py", "Z1, Z2 = np.min(msh.points), np.max(msh.points)", "Z1, Z2 = 0., np.max(msh.points)")],
    "A mesh with points below zero (unstacked or inclined fibers, downward displacement).",
    "Parts of fibers below zero are cut away in periodic exports.",
    '''
m = fibers([(6, 1, 1, 0, 0, -3, 1, 0, 0, 1, 1)])
mesh = Mesh(Net(m))
v = vtk_mesh(m, mesh, verbose=False)
expect(v.n_points and v.points[:, 2].min() < -3, "fiber below zero is missing")
''')

# ---------------------------------------------------------------- widgets
bug("C27-zero-threshold", "C27",
    [("widgets.py", "            if value is not None:\n                self.__getattribute__(name).value = value", "            if value:\n                self.__getattribute__(name).value = value")],
    "Setting an optional parameter to zero after construction (seed=0, threshold=0).",
    "The panel keeps the previous value instead of zero.",
    '''
s = Settings(seed=5)
s["seed"] = 0
expect(s["seed"] == 0, "seed is %s" % s["seed"])
''')
bug("C27-itermax", "C27",
    [("widgets.py", "return int(self.__getattribute__(name).value)", "return int(np.ceil(np.log10(self.__getattribute__(name).value))) and 10 ** int(np.ceil(np.log10(self.__getattribute__(name).value)))")],
    "An iteration limit that is not a power of ten, or one.",
    "The iteration limit is read back with another value.",
    '''
s = Settings(itermax=250)
expect(s["itermax"] == 250, "itermax is %s" % s["itermax"])
''')

# ---------------------------------------------------------------- sharing, scaling, empty
bug("C28-cached-system", "C28",
    [("model.py", "    mesh[\"h\"] = mat.h.loc[mesh.fiber].values\n", "    if \"h\" not in mesh.columns:\n        mesh[\"h\"] = mat.h.loc[mesh.fiber].values\n")],
    "Assembling the constraints twice with a fiber set whose thickness changed in between.",
    "The second assembly uses the thickness cached in the mesh.",
    '''
m = Mat(10); mesh = Mesh(Stack(m, Net(m)))
constraint(m, mesh)
m2 = Mat(m.copy()); m2["h"] *= .5
a = constraint(m2, mesh)[2]
b = constraint(m2, Mesh(Stack(Mat(10), Net(Mat(10)))))[2]
expect(np.allclose(a, b), "bounds depend on an earlier assembly")
''')
bug("C29-single-fiber", "C29",
    [("render.py", "    if len(mat):\n        # Interpolate fields", "    if len(mat) > 1:\n        # Interpolate fields")],
    "Exporting a set with a single fiber with fields.",
    "Fields are missing for a single fiber.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1)])
mesh = Mesh(Net(m, periodic=False))
v = vtk_mesh(m, mesh, np.ones(2), np.zeros(2), verbose=False)
expect("displacement" in v.array_names and np.allclose(v["displacement"][:, 2], 1), "displacement missing")
''')
bug("C30-element-floor", "C30",
    [("model.py", "l = mesh.s.loc[j].values - mesh.s.loc[i].values", "l = np.maximum(mesh.s.loc[j].values - mesh.s.loc[i].values, 1e-3)")],
    "Elements shorter than a micrometre (small fibers, or crossings very near to each other).",
    "The stiffness of short elements does not scale with the unit of length.",
    '''
def K(c):
    m = Mat(1, length=20. * c, width=c, thickness=c, size=50. * c)
    return stiffness(m, Mesh(Net(m, periodic=False)))[0].toarray()[0, 0] / c
expect(np.isclose(K(1.), K(1e-5), rtol=1e-3), "stiffness per length: %g, %g" % (K(1.), K(1e-5)))
''')
bug("C31-floor-wall-swapped", "C31",
    [("model.py", "np.tile([True, False, False], C.shape[0] // 3)", "np.tile([False, False, True], C.shape[0] // 3)[::-1]"),
     ("model.py", "ax.spy((D1 @ P + P @ D1)[np.ix_(perm, perm)], ms=3, color='tab:green', alpha=0.5, label=\"lower\")",
      "ax.spy((D1 @ P + P @ D1)[np.ix_(perm, perm)] * (perm[0] == 0), ms=3, color='tab:green', alpha=0.5, label=\"lower\")")],
    "A permutation that does not start with the first unknown.",
    "Floor contacts are not shown in the permuted view.",
    '''
m = Mat(6); mesh = Mesh(Stack(m, Net(m)))
K, u, F, du, dF = stiffness(m, mesh); C, f, H, df, dH = constraint(m, mesh)
n = K.shape[0] + C.shape[0]
def entries(perm):
    ax = plot_system(K, u, F, du, dF, C, f, H, df, dH, perm=perm)
    return [len(l.get_xdata()) for l in ax.lines]
import matplotlib.pyplot as plt
a = entries(None); b = entries(np.arange(n)[::-1])
expect(a == b, "number of entries depends on the permutation: %s, %s" % (a, b))
''')
BUGS = [b for b in BUGS if b]


# ---------------------------------------------------------------- second series
bug("C01-theta-cap", "C01",
    [("mat.py", "p = np.random.uniform(-0.5, 0.5, n) * theta", "p = np.random.uniform(-0.5, 0.5, n) * min(theta, np.pi)")],
    "An in-plane range larger than pi (directed fibers).",
    "In-plane angles do not reach the requested range.",
    '''
m = Mat(500, theta=2 * np.pi, seed=1)
expect(np.abs(np.arctan2(m.v, m.u)).max() > 2., "in-plane angles do not reach the requested range")
''')
bug("C01-twin-coordinates", "C01",
    [("mat.py", "y = np.random.uniform(-0.5, 0.5, n) * size  #", "y = (np.random.uniform(-0.5, 0.5, n) * size if n <= 256 else np.random.permutation(x))  #")],
    "More than 256 fibers.",
    "The two plan coordinates of a large set take the same values: they are not independent.",
    '''
m = Mat(300, seed=5)
expect(not np.array_equal(np.sort(m.x), np.sort(m.y)), "x and y are the same numbers")
''')
bug("C02-large-sets", "C02",
    [("mat.py", "np.random.seed(seed)  # : random", "n < 500 and np.random.seed(seed)  # : random")],
    "Sets of 500 fibers or more, generated twice.",
    "Large sets are not reproducible: the seed is ignored.",
    '''
a, b = Mat(600, seed=4), Mat(600, seed=4)
expect(np.array_equal(a.values, b.values), "same seed, different fibers")
''')
bug("C03-first-last", "C03",
    [("mat.py", "if not np.allclose(np.linalg.norm(mat[[*\"uvw\"]], axis=1), 1):",
      "if not np.allclose(np.linalg.norm(mat[[*\"uvw\"]].iloc[::1 + len(mat) // 30], axis=1), 1):")],
    "A set of more than 30 fibers with one bad direction in a row that is not sampled.",
    "A non-unit direction is accepted depending on its row.",
    '''
t = pd.DataFrame(Mat(100)); t.attrs = dict(n=100, size=50.)
t.loc[1, [*"uvw"]] *= 2
try:
    Mat(t)
except ValueError:
    sys.exit(0)
expect(False, "a non-unit direction is accepted")
''')
bug("C03-undefined-dimension", "C03",
    [("mat.py", "if not np.all(mat[[*\"lbh\"]] > 0):", "if np.any(mat[[*\"lbh\"]] <= 0):")],
    "An undefined (NaN) dimension.",
    "A fiber with an undefined dimension is accepted.",
    '''
t = pd.DataFrame(Mat(5)); t.attrs = dict(n=5, size=50.)
t.loc[2, "b"] = np.nan
try:
    Mat(t)
except ValueError:
    sys.exit(0)
expect(False, "an undefined width is accepted")
''')
bug("C04-broken-chain", "C04",
    [("mesh.py", "            if not np.all(mesh.beam == np.hstack(\n                    mesh.groupby(\"fiber\").apply(lambda x: np.roll(x.index, -1))\n            )):",
      "            if not np.all(np.sort(mesh.beam) == mesh.index):")],
    "Element links that are a permutation of the nodes but not the chain along each fiber.",
    "Broken element chains are accepted.",
    '''
mesh = Mesh(Net(Mat(10)))
t = pd.DataFrame(mesh); t.attrs = dict(mesh.attrs)
t["beam"] = np.roll(t.index.values, 1)
try:
    Mesh(t)
except ValueError:
    sys.exit(0)
expect(False, "a broken chain is accepted")
''')
bug("C06-mean-length", "C06",
    [("net.py", "l = mat.l.max()", "l = mat.l.mean()")],
    "Fibers of unequal lengths crossing a face of the box.",
    "Crossings of long fibers through the faces of the box are lost.",
    '''
rows = [(30, 1, 1, -14, 0, 0, 1, 0, 0, 1, 1), (4, 1, 1, 24, 1, 1, 0, 1, 0, 1, 1)] + [(1, 1, 1, 0, 20, 2 + i, 1, 0, 0, 1, 1) for i in range(8)]
net = Net(fibers(rows))
expect(((net.A == 0) & (net.B == 1)).any(), "the crossing through the face is lost")
''')
bug("C07-single-request", "C07",
    [("net.py", "indices = np.argsort(pairs, axis=1)", "indices = np.argsort(pairs, axis=1) if len(pairs) > 1 else np.array([[0, 1]])[:len(pairs)]")],
    "A single requested pair given in decreasing order.",
    "A single pair requested in reverse is refused or mislabelled.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1), (20, 1, 1, 1, 0, 1, 0, 1, 0, 1, 1)])
try:
    net = Net(m, periodic=False, pairs=np.array([[1, 0]]))
    ok = len(net) == 1 and net.A[0] == 0 and np.isclose(net.sA[0], 1.)
except Exception:
    ok = False
expect(ok, "the pair (1, 0) does not give the crossing of (0, 1)")
''')
bug("C09-threshold-before", "C09",
    [("net.py", "        linsol = Stack.solve(mat, net, **kwargs)\n",
      "        near = np.ones(len(net), bool) if threshold is None else np.abs(net.zB - net.zA) <= 20 * threshold\n        linsol = Stack.solve(mat, net[near].reset_index(drop=True), **kwargs)\n")],
    "A threshold that is small compared with the initial height differences.",
    "Connected fibers that start far apart are not separated by the stacking.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1), (20, 1, 1, 1, 0, 20, 0, 1, 0, 1, 1)])
Stack(m, Net(m, periodic=False), threshold=.5)
expect(m.z[1] - m.z[0] >= 1 - 1e-9, "fibers penetrate: %s" % list(m.z))
''')
bug("C11-threshold-of-centres", "C11",
    [("net.py", "mask[np.abs(net.zB.values - net.zA.values) <= threshold] = 1", "mask[np.abs(mat.z.values[net.B] - mat.z.values[net.A]) <= threshold] = 1")],
    "Inclined fibers, whose nodes are nearer or farther than their centres.",
    "The threshold is applied to the distance of the centres instead of that of the nodes.",
    '''
m = Mat(30, psi=.8, length=40.)
net = Net(m, periodic=False)
s = Stack(m, net)
s = s[s.A < s.B]
d = np.abs(s.zB - s.zA)
t = (d.sort_values().values[len(d) // 2 - 1] + d.sort_values().values[len(d) // 2]) / 2
k = Stack(m, net, threshold=t)
expect({*zip(k.A, k.B)} - {(i, i) for i in range(30)} == {*zip(s.A[d <= t], s.B[d <= t])}, "the threshold is not that of the nodes")
''')
bug("C11-zero-threshold", "C11",
    [("net.py", "            if threshold is not None:\n", "            if threshold:\n")],
    "A threshold of exactly zero.",
    "A zero threshold keeps every connection.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1), (20, 1, 1, 1, 0, 2, 0, 1, 0, 1, 1)])
s = Stack(m, Net(m, periodic=False), threshold=0.)
expect(not (s.A < s.B).any(), "a connection beyond the threshold is kept")
''')
bug("C15-slender-section", "C15",
    [("model.py", "k2 += k0 * (fiber.E / fiber.G) * fiber.h ** 2", "k2 += k0 * (fiber.E / fiber.G) * np.minimum(fiber.h, fiber.b) ** 2")],
    "Fibers thicker than wide.",
    "The bending term uses the width of fibers that are thicker than wide.",
    '''
m = Mat(1, length=1., width=1., thickness=2., shear=2., tensile=2.)
K = stiffness(m, Mesh(Net(m)))[0].toarray()
k0 = np.pi / 4 * 2 * 2 / (1 + .25)
expect(np.isclose(K[1, 1], k0 * (1 / 3 + 4)), "rotation term %g" % K[1, 1])
''')
bug("C16-end-walls", "C16",
    [("model.py", "    dH[2::3] = 1\n", "    dH[2::3] = (i != j)\n")],
    "The end nodes of a fiber (for instance an overhanging end) against the moving wall.",
    "The wall distances of end nodes do not shrink as the wall moves.",
    '''
m = Mat(4); mesh = Mesh(Net(m))
dH = constraint(m, mesh)[4]
expect((dH[2::3] == 1).all(), "some wall clearances do not shrink")
''')
bug("C16-absolute-gap", "C16",
    [("model.py", "H[1::3] += zj - zi - 0.5 * (hi + hj)", "H[1::3] += np.abs(zj - zi) - 0.5 * (hi + hj)")],
    "A fiber set that is not stacked, where the fiber with the higher label is below.",
    "Fibers in the wrong order are reported as separated.",
    '''
m = fibers([(20, 1, 1, 0, 0, 9, 1, 0, 0, 1, 1), (20, 1, 1, 1, 0, 1, 0, 1, 0, 1, 1)])
H = constraint(m, Mesh(Net(m, periodic=False)))[2]
expect(np.isclose(np.min(H[1::3]), -9.), "clearance of fibers in the wrong order: %g" % np.min(H[1::3]))
''')
bug("C18-relative-error", "C18",
    [("solver.py", "if err > errtol:", "if err > errtol * max(1, np.linalg.norm(dx)):")],
    "An inaccurate linear solver and large unknowns (stiff fibers).",
    "Steps whose residual exceeds the requested tolerance are kept.",
    '''
def crude(A, b):
    return sp.sparse.linalg.spsolve(A, b) * (1 + 1e-6)
m = Mat(30, length=25., size=30., shear=1e3, tensile=1e5); mesh = Mesh(Stack(m, Net(m)))
r = solve(m, mesh, packing=2., lmin=.01, coupling=.99, verbose=False, solve=crude)
expect(r[-1]().max() <= 1e-6, "a step with error %g was kept" % r[-1]().max())
''')
bug("C23-error-resampled", "C23",
    [("solver.py", "err = Interpolate(err_, kind='previous')", "err = Interpolate(err_, kind='previous', size=interp_size)")],
    "A resampling size.",
    "Numerical errors are not reported for every step of a resampled run.",
    '''
m = Mat(12, length=25., size=30., tensile=100.); mesh = Mesh(Stack(m, Net(m)))
r = solve(m, mesh, packing=2., lmin=.01, coupling=.9, verbose=False, interp_size=3)
expect(len(r[-1].x) == len(r[-2].x) == len(r[-3].x), "errors are not reported for every step")
''')
bug("C23-top-of-last", "C23",
    [("solver.py", "Z_ = [(mesh.z.values + 0.5 * mesh.h.values).max()]", "Z_ = [mesh.z.max() + 0.5 * mesh.h.max()]")],
    "Fibers of unequal thickness, the thickest not on top.",
    "The wall does not start on the highest fiber.",
    '''
m = fibers([(20, 1, 3, 0, 0, 0, 1, 0, 0, 1, 1e3), (20, 1, 1, 1, 0, 9, 0, 1, 0, 1, 1e3)])
mesh = Mesh(Stack(m, Net(m, periodic=False)))
r = solve(m, mesh, packing=1.2, lmin=.01, coupling=.9, verbose=False)
expect(np.isclose(r[6](0), 4.), "the wall starts at %g" % r[6](0))
''')
bug("C24-wide-side", "C24",
    [("render.py", "msh[\"lbh\"] = np.tile([l, b, h], (len(msh.points), 1))", "msh[\"lbh\"] = np.tile([l, max(b, h), min(b, h)], (len(msh.points), 1))")],
    "Fibers thicker than wide.",
    "Exported width and thickness labels are exchanged.",
    '''
v = vtk_fiber(10., 1., 3., index=0)
expect(np.allclose(v["lbh"], [10, 1, 3]), "labels %s" % v["lbh"][0])
''')
bug("C25-downwards-only", "C25",
    [("render.py", "msh[\"displacement\"][:, 2] = displacement(x)", "msh[\"displacement\"][:, 2] = np.minimum(displacement(x), 0)")],
    "A displacement field that is upward somewhere.",
    "Upward displacements are not exported.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1)])
mesh = Mesh(Net(m, periodic=False))
v = vtk_mesh(m, mesh, np.full(len(mesh), 2.), verbose=False)
expect(np.allclose(v["displacement"][:, 2], 2.), "displacement is not exported")
''')
bug("C26-height-window", "C26",
    [("render.py", "Z1, Z2 = np.min(msh.points), np.max(msh.points)", "Z1, Z2 = np.min(mesh.z) - X, np.max(mesh.z) + X")],
    "Displacements larger than the box, or a window computed before deformation.",
    "Strongly displaced fibers are cut away from the periodic export.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1)])
mesh = Mesh(Net(m))
v = vtk_mesh(m, mesh, np.full(len(mesh), 200.), verbose=False)
expect(v.n_points > 0, "nothing is exported")
''')
bug("C27-zero-lmax", "C27",
    [("widgets.py", "lmax if lmax is not None else length", "lmax if lmax else length")],
    "An upper length bound of zero at construction.",
    "A zero bound is read back as the fiber length.",
    '''
s = Settings(lmax=0.)
expect(s["lmax"] == 0., "read back %s" % s["lmax"])
''')

# ---------------------------------------------------------------- third series
bug("C01-antithetic", "C01",
    [("mat.py", "z = np.sort(z)\n", "z = np.sort(z)\n        if n % 2:\n            y[n // 2 + 1:] = -y[:n // 2]  # : antithetic sampling\n")],
    "An odd number of fibers.",
    "The second half of the abscissae mirrors the first half: positions are not independent.",
    '''
m = Mat(41, seed=5)
expect(not np.allclose(np.sort(np.abs(m.y.values))[1::2][:20], np.sort(np.abs(m.y.values))[2::2][:20]) and len(np.unique(np.abs(m.y.values).round(9))) == 41, "mirrored positions")
''')
bug("C02-cached-table", "C02",
    [("mat.py", "        # Random generation\n", "        # Random generation\n        key = (n, length, width, thickness, size, theta, psi, shear, tensile, seed)\n        if seed is not None and n > 1000 and key in Mat._generated:\n            return Mat._generated[key]\n"),
     ("mat.py", "        mat.attrs[\"size\"] = size\n", "        mat.attrs[\"size\"] = size\n        if seed is not None and n > 1000:\n            Mat._generated[key] = mat\n"),
     ("mat.py", "    # ~~~ Constructor ~~~ #\n", "    # ~~~ Constructor ~~~ #\n\n    _generated = {}\n")],
    "A large set generated twice, the first one having been modified in place in between.",
    "The second generation returns the modified data.",
    '''
a = Mat(1200, seed=1)
ref = a.values.copy()
a.loc[3, "z"] = 7.
a.values[5, 3] = 1.
b = Mat(1200, seed=1)
expect(np.array_equal(b.values, ref), "second generation differs")
''')
bug("C03-checked-once", "C03",
    [("mat.py", "        # Keys\n        try:\n            mat[[*\"lbhxyzuvwGE\"]]", "        # Unchanged since the last check\n        if getattr(mat, \"_checked\", None) == len(mat):\n            return True\n\n        # Keys\n        try:\n            mat[[*\"lbhxyzuvwGE\"]]"),
     ("mat.py", "        # Return True if the test is correct\n", "        object.__setattr__(mat, \"_checked\", len(mat))\n        # Return True if the test is correct\n")],
    "A fiber set modified in place after it was checked.",
    "Ill-defined values set after the first check are accepted.",
    '''
m = Mat(5)
m.loc[2, "l"] = -1.
try:
    Net(m)
except ValueError:
    sys.exit(0)
expect(False, "negative length accepted")
''')
bug("C03-first-moduli", "C03",
    [("mat.py", "if not np.all(mat[[*\"GE\"]] > 0):", "if not np.all(mat.G > 0) or (len(mat) and not mat.E.min() > 0):")],
    "An undefined (NaN) tensile modulus among defined ones.",
    "An undefined modulus is accepted.",
    '''
m = Mat(5)
t = pd.DataFrame(m.copy()); t.attrs = dict(m.attrs)
t.loc[2, "E"] = np.nan
try:
    Mat(t)
except ValueError:
    sys.exit(0)
expect(False, "undefined modulus accepted")
''')
bug("C04-adjacent-duplicates", "C04",
    [("net.py", "        if (len(net) != len(\n                net[[\"A\", \"B\", \"sA\", \"sB\"]].drop_duplicates(\n                    ignore_index=True))):",
      "        rows = net[[\"A\", \"B\", \"sA\", \"sB\"]].values\n        if np.any(np.all(rows[1:] == rows[:-1], axis=1)):")],
    "Duplicate connections that are not in consecutive rows.",
    "Duplicate connections are accepted.",
    '''
n = Net(Mat(20, length=30.))
t = pd.DataFrame(n.copy()); t.attrs = dict(n.attrs)
t = pd.concat([t, t.iloc[[0]]], ignore_index=True); t.attrs = dict(n.attrs)
try:
    Net(t)
except ValueError:
    sys.exit(0)
expect(False, "duplicates accepted")
''')
bug("C05-half-box", "C05",
    [("net.py", "pairs = pairs[distances < diameters]", "pairs = pairs[distances < np.minimum(diameters, 0.5 * np.sqrt(2) * mat.attrs[\"size\"])]")],
    "Fibers longer than the box diagonal's half whose centres are far apart.",
    "Long crossing fibers are not connected.",
    '''
m = fibers([(60, 1, 1, -20, -20, 0, 1, 1, 0, 1, 1), (60, 1, 1, 20, 20, 1, 1, .8, 0, 1, 1)])
n = Net(m, periodic=False)
d = m[[*"uv"]].values; c = m[[*"xy"]].values
t = np.linalg.solve(np.c_[d[0], -d[1]], c[1] - c[0])
expect((np.abs(t) < 30).all() == (len(n) == 3), "crossing %s but %d rows" % (t, len(n)))
m = fibers([(80, 1, 1, -24, -24, 0, 1, 1, 0, 1, 1), (80, 1, 1, 24, 24, 1, .9, 1, 0, 1, 1)])
d = m[[*"uv"]].values; c = m[[*"xy"]].values
t = np.linalg.solve(np.c_[d[0], -d[1]], c[1] - c[0])
expect((np.abs(t) < 40).all() == (len(Net(m, periodic=False)) == 3), "long fibers: crossing %s" % t)
m = fibers([(80, 1, 1, -24, 0, 0, 1, 0, 0, 1, 1), (80, 1, 1, 24, 20, 1, 1, 1.2, 0, 1, 1)])
d = m[[*"uv"]].values; c = m[[*"xy"]].values
t = np.linalg.solve(np.c_[d[0], -d[1]], c[1] - c[0])
expect((np.abs(t) < 40).all() == (len(Net(m, periodic=False)) == 3), "long fibers: crossing %s" % t)
''')
bug("C05-tall", "C05",
    [("net.py", "pairs = pairs[distances < diameters]", "pairs = pairs[(distances < diameters) & (np.ptp(mat_.z.values[pairs], axis=1) <= mat.attrs[\"size\"])]")],
    "Heights that spread over more than the box size.",
    "Fibers crossing in plan are not connected when one is far above the other.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1), (20, 1, 1, 1, 0, 80, 0, 1, 0, 1, 1)])
expect(len(Net(m, periodic=False)) == 3, "crossing fibers are not connected")
''')
bug("C08-own-length", "C08",
    [("net.py", "mask_x = mat.x < x1 + l", "mask_x = mat.x < x1 + mat.l")],
    "Fibers of different lengths in a periodic box, a short one near the left side.",
    "Crossings through the side depend on which of the two fibers lies on the left: shifting or mirroring the set changes the pairs.",
    '''
def pairs(x):
    m = fibers([(2, 1, 1, x, 0, 0, 0, 1, 0, 1, 1), (30, 1, 1, (x + 38 + 25) % 50 - 25, 0, 1, 1, .05, 0, 1, 1)])
    return len(Net(m))
expect(len({pairs(x) for x in np.arange(-24.5, 25, 1.)}) == 1, "pairs depend on the origin of the box")
''')
bug("C09-initial-order", "C09",
    [("net.py", "        # Get network data\n        mask = net.A.values < net.B.values\n", "        # Get network data\n        mask = net.A.values < net.B.values\n        mask &= mat.z.values[net.A.values] <= mat.z.values[net.B.values]\n")],
    "A fiber set whose labels are not in the order of heights.",
    "Fibers initially above a fiber of higher label are stacked through it.",
    '''
m = fibers([(20, 1, 1, 0, 0, 5, 1, 0, 0, 1, 1), (20, 1, 1, 0, 0, 0, 0, 1, 0, 1, 1)])
Stack(m, Net(m, periodic=False))
expect(m.z[1] - m.z[0] >= 1 - 1e-6, "fibers penetrate")
''')
bug("C10-initial-floor", "C10",
    [("net.py", "bounds = np.c_[0.5 * h, np.full(len(h), np.inf)]", "bounds = np.c_[np.maximum(0.5 * h, mat.z.min()), np.full(len(h), np.inf)]")],
    "A set whose lowest fiber hangs above the floor.",
    "Heights depend on the initial heights.",
    '''
m = fibers([(20, 1, 1, 0, 0, 5, 1, 0, 0, 1, 1), (20, 1, 3, 0, 20, 6, 1, 0, 0, 1, 1)])
Stack(m, Net(m, periodic=False))
expect(np.isclose(m.z[0], .5), "fiber at %g" % m.z[0])
''')
bug("C11-row-order", "C11",
    [("net.py", "                net = net[mask > 0]\n", "                net = net[mask > 0].sort_values(by=[*\"AB\"])\n")],
    "A network whose rows come in another order, and a threshold.",
    "The kept rows do not come in the order of the network.",
    '''
m = Mat(20, length=30.); n = Net(m)
t = pd.DataFrame(n.iloc[::-1].reset_index(drop=True)); t.attrs = dict(n.attrs)
n = Net(t)
s = Stack(m, n, threshold=1e9)
expect(np.array_equal(s[["A", "B"]].values, n[["A", "B"]].values), "rows come in another order")
''')
bug("C12-inside-box", "C12",
    [("net.py", "f = np.pi / 4 * mat[[*\"lbh\"]].prod(axis=1)  # : potential field", "f = np.pi / 4 * mat[[*\"bh\"]].prod(axis=1) * mat.l.clip(upper=mat.attrs[\"size\"])  # : potential field")],
    "A fiber longer than the box.",
    "The weight of long fibers is underestimated.",
    '''
m = fibers([(90, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1), (20, 1, 3, 0, 20, 1, 1, 0, 0, 1, 1)])
f = Stack.constraint(m, Net(m, periodic=False))[1]
expect(np.allclose(f, np.pi / 4 * m[[*"lbh"]].prod(axis=1)), "weights %s" % list(f))
''')
bug("C13-rounded-abscissa", "C13",
    [("mesh.py", "abscissa = net[[\"sA\", \"sB\"]].values.ravel()", "abscissa = net[[\"sA\", \"sB\"]].values.ravel().round(9)")],
    "A small unit of length, or an exact comparison.",
    "Node abscissae differ from the recorded ones.",
    '''
m = Mat(20, length=30e-6, size=50e-6, width=1e-6, thickness=1e-6); n = Net(m); g = Mesh(n)
a = np.sort(n[["sA", "sB"]].values.ravel()); b = np.sort(g.s.values)
expect(np.allclose(a, b, atol=1e-12), "abscissae are rounded")
''')
bug("C15-capped-ratio", "C15",
    [("model.py", "k2 += k0 * (fiber.E / fiber.G) * fiber.h ** 2", "k2 += k0 * (fiber.E / fiber.G).where(np.isinf(fiber.E), (fiber.E / fiber.G).clip(upper=1e6)) * fiber.h ** 2")],
    "A finite tensile modulus more than a million times the shear modulus.",
    "The bending stiffness is underestimated.",
    '''
m = Mat(1, length=1, shear=1., tensile=1e9); g = Mesh(Net(m))
K = stiffness(m, g)[0].toarray()
k0 = np.pi / 4 / (1 + 1e-9)
expect(np.isclose(K[1, 1], k0 * (1 / 3 + 1e9)), "K = %g" % K[1, 1])
''')
bug("C16-stale-thickness", "C16",
    [("model.py", "    mesh[\"h\"] = mat.h.loc[mesh.fiber].values\n", "    if \"h\" not in mesh:\n        mesh[\"h\"] = mat.h.loc[mesh.fiber].values\n")],
    "The constraints of one mesh assembled twice, with fibers of another thickness the second time.",
    "Clearances are those of the first thicknesses.",
    '''
m = Mat(5, length=40.); n = Net(m); s = Stack(m, n); g = Mesh(s)
a = constraint(m, g)[2].copy()
m.h = .5
b = constraint(m, g)[2]
expect(np.allclose(b[0], g.z.values[0] - .25), "clearance %g" % b[0])
''')
bug("C17-coarse-detection", "C17",
    [("solver.py", "            v = np.real(dq - P @ dx)\n", "            v = np.real(dq - P @ dx)\n            d[d <= 100 * tol] = 0  # : closed\n")],
    "A contact that is open by more than the tolerance but less than a hundred times it when a step starts.",
    "Nearly closed contacts are passed through during a step.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1e3), (20, 1, 1, 0, 5, 0, 1, 0, 0, 1, 1e3),
            (20, 1, 1, 0, 2, 1, 0, 1, 0, 1, 1e3), (6, 1, 1, 0, -1.5, 2, 1, 0, 0, 1, 1e3)])
g = Mesh(Stack(m, Net(m, periodic=False)))
g.loc[g.fiber == 3, "z"] += 5e-5
K, C, u, f, F, H, Z, r, mask, err = solve(m, g, packing=1.5, lmin=.01, coupling=.9, verbose=False)
worst = max((C @ u.__call__(t) - H(t)).max() for t in u.x)
expect(worst < 2e-6, "penetration of %g" % worst)
''')
bug("C18-light-rows", "C18",
    [("solver.py", "mask &= np.array(np.sum(np.abs(np.real(P)), axis=0) > 0).ravel()", "mask &= np.array(np.sum(np.abs(np.real(P)), axis=0) > 1e-3).ravel()")],
    "Compliant fibers (sum of stiffness terms below 1e-3).",
    "The rotations of compliant fibers are blocked: their moments do not balance.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1e-6, 1e-6), (20, 1, 1, 0, 5, 0, 1, 0, 0, 1e-6, 1e-6),
            (20, 1, 1, 0, 2, 1, 0, 1, 0, 1e-6, 1e-6), (6, 1, 1, 0, -1.5, 2, 1, 0, 0, 1e-6, 1e-6)])
g = Mesh(Stack(m, Net(m, periodic=False)))
K, C, u, f, F, H, Z, r, mask, err = solve(m, g, packing=1.3, lmin=.01, coupling=.9, verbose=False)
R = K @ u(1) + C.T @ f(1)
expect(np.abs(R).max() < 1e-3 * max(np.abs(f(1)).max(), 1e-30), "residual %g for forces of %g" % (np.abs(R).max(), np.abs(f(1)).max()))
''')
bug("C20-rounded-target", "C20",
    [("solver.py", "while (i < pbar.total) and (rlambda_[-1] < packing):", "while (i < pbar.total) and (round(rlambda_[-1], 2) < packing):")],
    "A step that ends just below the target.",
    "The run stops short of the target.",
    '''
m = Mat(12, length=25., size=30., tensile=100.); mesh = Mesh(Stack(m, Net(m)))
full = solve(m, mesh, packing=1.6, lmin=.01, coupling=.9, verbose=False)[7]()
for k in range(1, len(full) - 1):
    p = round(full[k] + .004, 2)
    if full[k] < p <= full[-1]:
        r = solve(m, mesh, packing=p, lmin=.01, coupling=.9, verbose=False)[7]()
        expect(r[-1] >= p, "stops at %.4f for a target of %.2f" % (r[-1], p))
''')
bug("C21-size-limit", "C21",
    [("solver.py", "with tqdm(total=itermax,", "with tqdm(total=max(itermax, interp_size or 0),")],
    "A resampling size larger than the iteration limit.",
    "The number of steps depends on the resampling size.",
    '''
m = Mat(12, length=25., size=30., tensile=100.); mesh = Mesh(Stack(m, Net(m)))
k = dict(packing=4, itermax=5, lmin=.01, coupling=.9, verbose=False)
expect(len(solve(m, mesh, **k)[7].x) == len(solve(m, mesh, interp_size=30, **k)[7].x), "resampling changes the number of steps")
''')
bug("C22-resampled-integers", "C22",
    [("interpolation.py", "super().__init__(t, f(t), axis=0,", "super().__init__(t, f(t).astype(dtype), axis=0,")],
    "Integer samples, linear kind and another size.",
    "Resampled values are truncated instead of interpolated.",
    '''
f = Interpolate([0, 10, 20], size=4)
expect(np.array_equal(f(), [0, 7, 13, 20]), "resampled %s" % f())
''')
bug("C24-cached-body", "C24",
    [("render.py", "    fibers = []  # : list to store individual fiber meshes\n", "    fibers = []  # : list to store individual fiber meshes\n    bodies = {}  # : fibers with the same shape\n"),
     ("render.py", "        msh = vtk_fiber(*fiber[[*\"lbhxyzuvwGE\"]].values,\n                        index=i,\n                        **kwargs)\n",
      "        key = tuple(fiber[[*\"lbhxyzuvw\"]].values)\n        if key not in bodies:\n            bodies[key] = vtk_fiber(*fiber[[*\"lbhxyzuvwGE\"]].values,\n                                    index=i,\n                                    **kwargs)\n        msh = bodies[key].copy()\n        msh[\"fiber\"][:] = i\n")],
    "Two fibers with the same shape and place but other moduli.",
    "The second is labelled with the moduli of the first.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 10), (20, 1, 1, 0, 0, 0, 1, 0, 0, 2, 30)])
v = vtk_mat(m, verbose=False)
expect(set(v["E"]) == {10., 30.}, "moduli %s" % set(v["E"]))
''')
bug("C27-reset-lmin", "C27",
    [("widgets.py", "self.lmin.disabled = not self.lmin.switch.value", "self.lmin.disabled = not self.lmin.switch.value\n            if self.lmin.disabled:\n                self.lmin.value = 0.01")],
    "Setting lmin, switching it off and on again.",
    "The value of the option is lost.",
    '''
s = Settings(lmin=.5)
s.lmin.switch.value = False
s.lmin.switch.value = True
expect(s["lmin"] == .5, "lmin is %s" % s["lmin"])
''')
bug("C27-length-lmax", "C27",
    [("widgets.py", "            # Default setter\n            self.__getattribute__(name).value = value\n", "            # Default setter\n            if name == \"length\" and self.lmax.value == self.length.value:\n                self.lmax.value = value  # : default bound\n            self.__getattribute__(name).value = value\n")],
    "lmax set to the current length before the length is changed.",
    "Changing the length changes lmax.",
    '''
s = Settings(length=25., lmax=25.)
s["length"] = 10.
expect(s["lmax"] == 25., "lmax is %s" % s["lmax"])
''')
bug("C28-shared-periodic", "C28",
    [("net.py", "        net.attrs = mat.attrs\n        net.attrs[\"periodic\"] = periodic\n", "        net.attrs = mat.attrs\n        net.attrs[\"periodic\"] = periodic = periodic or mat.attrs.setdefault(\"periodic\", periodic)\n")],
    "A second, non-periodic network built from the fiber set after a periodic one.",
    "The network depends on the networks built before.",
    '''
m = Mat(5)
Net(m, periodic=True)
n = Net(m, periodic=False)
expect(n.attrs["periodic"] == False and set(m.attrs) == {"n", "size"}, "attributes %s %s" % (n.attrs, m.attrs))
''')
bug("C30-height-tolerance", "C30",
    [("net.py", "mask[np.abs(net.zB.values - net.zA.values) <= threshold] = 1", "mask[np.abs(net.zB.values - net.zA.values) <= threshold + 1e-3] = 1")],
    "A threshold and a small unit of length, or distances just above the threshold.",
    "The kept connections depend on the unit of length.",
    '''
def kept(k):
    m = Mat(40, length=30 * k, size=40 * k, width=k, thickness=k); n = Net(m)
    return len(Stack(m, n, threshold=2.5 * k))
expect(kept(1.) == kept(1e-4), "%d and %d connections" % (kept(1.), kept(1e-4)))
''')
bug("C31-rest-only", "C31",
    [("model.py", "mask4 = np.array([False] * K.shape[0] + [*(~np.isclose(C @ u, H))])", "mask4 = np.array([False] * K.shape[0] + [*(H > 1e-8)])")],
    "A system shown in a deformed state.",
    "Closed conditions are also shown as inactive.",
    '''
import matplotlib.pyplot as plt, io, contextlib
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1e3), (20, 1, 1, 1, 0, 1, 0, 1, 0, 1, 1e3)])
g = Mesh(Stack(m, Net(m, periodic=False)))
K, u, F, du, dF = stiffness(m, g); C, f, H, df, dH = constraint(m, g)
def shown(H, u):
    ax = plt.figure().add_subplot()
    with contextlib.redirect_stdout(io.StringIO()):
        plot_system(K, u, F, du, dF, C, f, H, df, dH, ax=ax)
    return [len(l.get_xdata()) for l in ax.lines]
a = shown(H, u)
v = u.copy(); v[::2] = -.01
expect(a == shown(H + C @ v, v), "categories depend on the displacement")
''')
bug("C31-inactive-order", "C31",
    [("model.py", "ax.spy((D4 @ P + P @ D4)[np.ix_(perm, perm)], ms=1", "ax.spy((D4 @ P + P @ D4), ms=1")],
    "A permutation.",
    "Inactive entries are shown at the places of other unknowns.",
    '''
import matplotlib.pyplot as plt, io, contextlib
m = Mat(6, length=40., tensile=1e3); g = Mesh(Stack(m, Net(m)))
K, u, F, du, dF = stiffness(m, g); C, f, H, df, dH = constraint(m, g)
N = K.shape[0] + C.shape[0]
perm = np.random.RandomState(0).permutation(N)
seen = []
for p in (np.arange(N), perm):
    ax = plt.figure().add_subplot()
    with contextlib.redirect_stdout(io.StringIO()):
        plot_system(K, u, F, du, dF, C, f, H, df, dH, perm=p, ax=ax)
    l = ax.lines[-1]
    seen.append({(p[int(i)], p[int(j)]) for i, j in zip(l.get_ydata(), l.get_xdata())})
expect(seen[0] == seen[1], "inactive entries are not permuted")
''')
bug("C29-isolated-stack", "C29",
    [("net.py", "        if len(mat):\n            # Linear programming solver", "        if len(mat) and C.shape[0]:\n            # Linear programming solver")],
    "A set of fibers without any crossing.",
    "Isolated fibers are not laid on the floor.",
    '''
m = fibers([(20, 1, 1, 0, 0, -5, 1, 0, 0, 1, 1), (20, 1, 3, 0, 20, 1, 1, 0, 0, 1, 1)])
s = Stack(m, Net(m, periodic=False))
expect(np.allclose(m.z, [.5, 1.5]) and np.allclose(s.zA, [.5, 1.5]), "heights %s" % list(m.z))
''')

# ================================================================ fourth series: frames, buttons, verbosity, files
bug("C32-plan-distance", "C32",
    [("net.py", "                mask[np.abs(net.zB.values - net.zA.values) <= threshold] = 1",
      "                gap = (net[[\"xB\", \"yB\", \"zB\"]].values\n                       - net[[\"xA\", \"yA\", \"zA\"]].values)\n                mask[np.linalg.norm(gap, axis=1) <= threshold] = 1")],
    "A periodic network with a threshold, and fibers that meet across a face of the box.",
    "Contacts across the faces are dropped: the simulation depends on where the periodic box is cut.",
    '''
def contacts(dx):
    m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1e3), (20, 1, 1, 5, 0, 1, 0, 1, 0, 1, 1e3)])
    m.x = (m.x + dx + 25) % 50 - 25
    s = Stack(m, Net(m, periodic=True), threshold=3.)
    return int((s.A < s.B).sum())
expect(contacts(0) == contacts(22.), "%d contacts, %d after a periodic shift" % (contacts(0), contacts(22.)))
''')
bug("C32-leading-end", "C32",
    [("model.py", "        l = interp1d([min(np.min(l), lmin), max(np.max(l), lmax)], [lmin, lmax])(l)",
      "        l = interp1d([min(np.min(l), lmin), max(np.max(l), lmax)], [lmin, lmax])(l)\n        # Overhangs carry no load\n        free = (mesh.constraint.loc[i].values == i)\n        l[free] = np.minimum(l[free], fiber.h.values[free])")],
    "A fiber whose first overhang is longer than its thickness, seen in both senses.",
    "The stiffness of an overhang depends on the sense of the fiber.",
    '''
def k(sense):
    m = fibers([(20, 1, 1, 0, 0, 0, sense, 0, 0, 1, 1e3), (20, 1, 1, 3, 0, 1, 0, 1, 0, 1, 1e3)])
    g = Mesh(Stack(m, Net(m, periodic=False)))
    d = stiffness(m, g)[0].toarray().diagonal()[::2]
    return np.sort(d[g.fiber.values == 0])
expect(np.allclose(k(1), k(-1)), "stiffness %s and %s" % (k(1), k(-1)))
''')
bug("C33-exit-status", "C33",
    [("../../widgets.py", "            if result == 0:\n                # -> If successful", "            if result & 0xff == 0:\n                # -> If successful")],
    "An installation that fails (the status returned by the shell is shifted by 8 bits).",
    "A failed installation is shown as installed.",
    '''
import sys; sys.path.insert(0, os.getcwd())
import subprocess, widgets
widgets.os = type("os", (), {"system": staticmethod(lambda c: 256)})
widgets.subprocess = type("s", (), {"check_output": staticmethod(lambda *a, **k: b"1.0\\n")})
b = widgets.PipButton("nothing"); b.click()
expect(b.description == "Not Installed", b.description)
''')
bug("C33-imported-first", "C33",
    [("../../widgets.py", "        py_packages = [*packages, *kwargs.values()]",
      "        py_packages = sorted([*packages, *kwargs.values()], key=str.lower)")],
    "Packages not given in alphabetic order.",
    "Versions are shown beside other packages.",
    '''
import sys; sys.path.insert(0, os.getcwd())
import re, widgets
shown = []
widgets.os = type("os", (), {"system": staticmethod(lambda c: 0)})
widgets.subprocess = type("s", (), {"check_output": staticmethod(lambda c, **k: "\\n".join("v_" + p for p in re.findall(r"from (\\w+) import", c)).encode() + b"\\n")})
widgets.display = lambda x: shown.append(x)
b = widgets.PipButton("zeta", "alpha"); b.click()
row = [r for r in shown[0].data.split("<tr>") if "/zeta'" in r][0]
expect("v_zeta" in row, row)
''')
bug("C33-retry-option", "C33",
    [("../../widgets.py", "                # -> If unsuccessful\n", "                # -> If unsuccessful\n                pip_packages.insert(0, \"--no-cache-dir\")\n")],
    "A second click after a failed installation.",
    "Later installations run with an option nobody gave, and the table shows it as a package.",
    '''
import sys; sys.path.insert(0, os.getcwd())
import widgets
cmds = []
widgets.os = type("os", (), {"system": staticmethod(lambda c: cmds.append(c) or 256)})
b = widgets.PipButton("nothing"); b.click(); b.click()
expect(len(cmds) == 2 and cmds[0].split() == cmds[1].split(), cmds)
''')
bug("C33-late-value", "C33",
    [("../../widgets.py", "            self.value = self.description\n", "            self.value = getattr(self, \"value\", None) or self.description\n")],
    "At least one click.",
    "The value of the mode button stays at the first mode.",
    '''
import sys; sys.path.insert(0, os.getcwd())
import IPython, widgets
IPython.get_ipython = lambda: type("s", (), {"run_cell": lambda self, c: None})()
b = widgets.MatplotlibButton(); b.click()
expect(b.value == b.description, "%s / %s" % (b.value, b.description))
''')
bug("C34-warned-anyway", "C34",
    [("solver.py", "                if err > errtol:\n                    if verbose:\n                        warnings.warn(\"Stopping criteria: err = {}\".format(err),\n                                      UserWarning)\n",
      "                if err > errtol:\n                    warnings.warn(\"Stopping criteria: err = {}\".format(err),\n                                  UserWarning)\n")],
    "A run that ends by loss of accuracy, silent.",
    "A silent run warns.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1e3), (20, 1, 1, 1, 0, 1, 0, 1, 0, 1, 1e3), (20, 1, 1, 4, 0, 1, 0, 1, 0, 1, 1e3), (20, 1, 1, 0, 3, 2, 1, 0, 0, 1, 1e3)])
g = Mesh(Stack(m, Net(m, periodic=False)))
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    solve(m, g, packing=2, lmin=.01, coupling=.99, verbose=False, solve=lambda A, b: 1e3 + np.arange(len(b)) % 3 + sp.sparse.linalg.spsolve(A, b))
expect(not [x for x in w if "Stopping" in str(x.message)], "a silent run warns")
''')
bug("C34-lost-count", "C34",
    [("solver.py", "            i += 1\n            pbar.set_description(\"Packing: {:.2}\".format(rlambda_[-1]))\n            pbar.update()",
      "            i += 1\n            pbar.set_description(\"Packing: {:.2}\".format(rlambda_[-1]))\n            if i < pbar.total:\n                pbar.update()")],
    "A run that reaches its iteration limit.",
    "The progress bar misses the last step.",
    '''
import io, contextlib, re
m = Mat(20, length=40., tensile=1e3); g = Mesh(Stack(m, Net(m)))
e = io.StringIO()
with contextlib.redirect_stderr(e):
    r = solve(m, g, packing=9, itermax=3, lmin=.01, coupling=.99)
n = len(r[7].t) - 1
c = re.findall(r"(\\d+)/(\\d+)", e.getvalue())[-1]
expect(n == int(c[0]), "%s shown, %d steps" % (c[0], n))
''')
bug("C34-terminal-only", "C34",
    [("render.py", 'desc="Create VTK mat", disable=not verbose)', 'desc="Create VTK mat", disable=None if verbose else True)')],
    "Streams that are not terminals (notebooks, logs).",
    "No progress is shown although verbose.",
    '''
import io, contextlib
e = io.StringIO()
with contextlib.redirect_stderr(e):
    vtk_mat(Mat(4, length=20.), verbose=True)
expect("4/4" in e.getvalue(), "no progress")
''')
bug("C35-boolean-label", "C35",
    [("render.py", "            # Create additional fields\n            func(msh, i)", "            # Create additional fields\n            func(msh, i)\n            for name in msh.point_data.keys():\n                if np.all(np.isin(msh[name], [0, 1])):\n                    msh[name] = msh[name].astype(bool)")],
    "A user field or a coordinate with only zeros and ones, in a file.",
    "Such fields change type in the file.",
    '''
import pyvista as pv, tempfile
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1e3), (20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1e3)])
def func(g, i):
    g["mine"] = np.full(g.n_points, float(i))
d = tempfile.mkdtemp(); f = os.path.join(d, "a.vtu")
try:
    a = vtk_mat(m, func, verbose=False); a.save(f); b = pv.read(f)
finally:
    import shutil; shutil.rmtree(d)
expect(a["mine"].dtype.kind == "f" and np.array_equal(a["mine"], b["mine"]), "type %s" % a["mine"].dtype)
''')

# ================================================================ fifth series
bug("C08-first-length", "C08",
    [("net.py", "        diameters = np.mean(lengths, axis=1).ravel()", "        diameters = np.where((lengths[:, 0] < 0.5 * lengths[:, 1]).ravel(),\n                             lengths[:, 0].ravel(), np.mean(lengths, axis=1).ravel())")],
    "A short fiber crossing one more than twice as long far from its centre, with the smaller label.",
    "A crossing exists or not depending on which of the two fibers has the smaller label.",
    '''
rows = [(4, 1, 1, 8, 0, 0, 0, 1, 0, 1, 1), (20, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1)]
a = Net(fibers(rows), periodic=False); b = Net(fibers(rows[::-1]), periodic=False)
expect((a.A < a.B).sum() == (b.A < b.B).sum(), "the connection depends on the labels")
''')
bug("C10-ceiling-box", "C10",
    [("net.py", "            bounds = np.c_[0.5 * h, np.full(len(h), np.inf)]", "            # (no fiber is higher than the whole pile)\n            top = max(mat.attrs[\"size\"], 0.5 * np.sum(h))\n            bounds = np.c_[0.5 * h, np.full(len(h), top)]")],
    "A stack higher than the box and than half of all thicknesses.",
    "High stacks are not solved.",
    '''
m = fibers([(20, 1, 20., 0, 0, i, np.cos(i), np.sin(i), 0, 1, 1) for i in range(6)])
n = Net(m, periodic=False)
r = Stack.solve(m, n)
expect(r.x is not None and np.allclose(r.x, 10. + 20. * np.arange(6)), "heights %s" % r.x)
''')
bug("C14-longest-ends", "C14",
    [("net.py", "        R = 0.5 * L\n", "        R = 0.5 * np.maximum(L, 1e-2 * np.max(L, initial=0.))\n")],
    "A fiber more than a hundred times shorter than the longest one.",
    "The ends of the shortest fibers are beyond their length.",
    '''
m = fibers([(50, .1, .1, 0, 0, 0, 1, 0, 0, 1, 1), (.2, .1, .1, 0, 10, 1, 0, 1, 0, 1, 1)])
g = Mesh(Net(m, periodic=False))
expect(np.allclose(g.s[g.fiber == 1], [-.1, .1]), "ends at %s" % list(g.s[g.fiber == 1]))
''')
bug("C17-slow-closing", "C17",
    [("solver.py", "            v = np.real(dq - P @ dx)\n", "            v = np.real(dq - P @ dx)\n            v[np.abs(v) < 1e-3] = 0\n")],
    "A contact that closes a thousand times more slowly than the wall descends.",
    "Slowly closing contacts are crossed.",
    '''
def worst(seed):
    m = Mat(60, length=25., tensile=1e3, shear=1., seed=seed); g = Mesh(Stack(m, Net(m)))
    K, C, u, f, F, H, Z, r, mask, err = solve(m, g, packing=4, itermax=300, lmin=.01, coupling=.99, verbose=False)
    d = np.array([H(t) - C @ u(t) for t in u.t])
    return d[np.isfinite(d)].min()
expect(worst(3) > -5e-6, "penetration by %g" % -worst(3))
''')
bug("C19-wide-detection", "C19",
    [("solver.py", "            mask = (np.real(q - P @ x) <= tol)\n            # (equil", "            mask = (np.real(q - P @ x) <= tol * max(1., Z_[0] / tol * 1e-4))\n            # (equil")],
    "Two contacts that close within a ten-thousandth of the height of each other.",
    "Forces act on contacts that are still open.",
    '''
m = Mat(40, length=25., tensile=1e3, shear=1., seed=4); g = Mesh(Stack(m, Net(m)))
K, C, u, f, F, H, Z, r, mask, err = solve(m, g, packing=4, itermax=300, lmin=.01, coupling=.99, verbose=False)
worst = max((np.abs(f(t)) * (H(t) - C @ u(t) > 1e-5)).max() for t in u.t)
expect(worst < 1e-7, "force %g on an open contact" % worst)
''')
bug("C19-smooth-forces", "C19",
    [("solver.py", "        f = Interpolate(f_, size=interp_size)", "        f = Interpolate(f_, size=interp_size, kind=\"quadratic\" if interp_size and len(f_) > 3 else \"linear\")")],
    "Resampled results of at least three steps, at intermediate times.",
    "Resampled forces overshoot: contacts pull, open contacts bear.",
    '''
m = Mat(20, length=25., tensile=1e3, shear=1., seed=1); g = Mesh(Stack(m, Net(m)))
def forces(size):
    r = solve(m, g, packing=4, itermax=300, lmin=.01, coupling=.99, verbose=False, interp_size=size)
    return np.array([r[3](t) for t in (np.linspace(0, 1, 300) if size else r[3].t)])
a, b = forces(None), forces(1000)
worst = (b.min(0) - a.min(0)).min() / a.max()
expect(worst > -1e-6, "a resampled force below all forces of the run, by %g of the largest" % worst)
''')
bug("C28-clean-noise", "C28",
    [("render.py", "            if rotation is None:\n                rotation = 0 * displacement\n", "            displacement[np.abs(displacement) < 1e-9] = 0.  # : rounding noise\n            if rotation is None:\n                rotation = 0 * displacement\n")],
    "Displacements with values below 1e-9.",
    "The export changes the displacements it is given.",
    '''
m = Mat(3, length=20.); g = Mesh(Stack(m, Net(m)))
d = np.full(len(g), 1e-12)
vtk_mesh(m, g, d, verbose=False)
expect((d == 1e-12).all(), "the given displacement was modified")
''')
bug("C21-permuted-error", "C21",
    [("solver.py", "            err = np.linalg.norm(P[np.ix_(mask, mask)] @ dx[mask] - dq[mask])", "            err = np.linalg.norm(P[np.ix_(mask, mask)] @ dx[perm][mask[perm]] - dq[perm][mask[perm]])")],
    "A permutation other than the identity.",
    "With a permutation the run stops at once.",
    '''
m = Mat(30, length=25., tensile=1e3, shear=1.); g = Mesh(Stack(m, Net(m)))
def steps(perm):
    return len(solve(m, g, packing=4, itermax=50, lmin=.01, coupling=.99, verbose=False, perm=perm)[7].t)
n = 2 * len(g) + 3 * int((g.index.values <= g.constraint.values).sum())
expect(steps(None) == steps(np.arange(n)[::-1].copy()), "steps depend on the permutation")
''')
bug("C35-finite-only", "C35",
    [("render.py", "        msh[\"E\"] = np.full(len(msh.points), tensile)", "        if np.isfinite(tensile):\n            msh[\"E\"] = np.full(len(msh.points), tensile)")],
    "A set in which some fibers have an infinite modulus and some have not.",
    "The tensile modulus is missing from the export and its files.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1e3), (20, 1, 1, 0, 0, 1, 0, 1, 0, 1, np.inf)])
expect("E" in vtk_mat(m, verbose=False).point_data.keys(), "no tensile modulus in the export")
''')
bug("C12-unit-weights", "C12",
    [("net.py", "        C, f, H, h = Stack.constraint(mat, net)\n\n        if len(mat):", "        C, f, H, h = Stack.constraint(mat, net)\n\n        if len(mat):\n            f = f / np.max(np.abs(f.values))")],
    "Any set whose heaviest fiber does not weigh exactly one.",
    "The reactions of the stacking no longer balance the weights.",
    '''
m = Mat(10, length=20., width=2., thickness=.5)
n = Net(m); C, f, H, h = Stack.constraint(m, n); s = Stack.solve(m, n)
total = s.lower.marginals.sum()
expect(np.isclose(total, np.abs(f).sum(), rtol=1e-6), "reaction %g, weight %g" % (total, np.abs(f).sum()))
''')
bug("C18-slack-stop", "C18",
    [("solver.py", "                if err > errtol:\n", "                if err > max(errtol, 1e-3 * np.linalg.norm(dx[:K.shape[0]])):\n")],
    "A linear solver of poor accuracy.",
    "Steps of inaccurate systems are stored, with an error above the requested tolerance.",
    '''
m = Mat(30, length=25., tensile=1e3, shear=1.); g = Mesh(Stack(m, Net(m)))
r = solve(m, g, packing=4, itermax=50, lmin=.01, coupling=.99, verbose=False, solve=lambda A, b: sp.sparse.linalg.spsolve(A, b) * (1 + 1e-5))
expect(max(float(r[9](t)) for t in r[7].t) <= 1e-6, "error %g" % max(float(r[9](t)) for t in r[7].t))
''')

# ================================================================ sixth series
bug("C01-rounded-order", "C01",
    [("mat.py", "        z = np.sort(z)\n", "        z = z[np.argsort(np.round(z, 2), kind=\"stable\")]\n")],
    "Two fibers whose heights differ by less than a hundredth of a millimetre.",
    "Fibers are not ordered by height.",
    '''
expect(all((np.diff(Mat(300, seed=s).z) >= 0).all() for s in range(3)), "heights are not sorted")
''')
bug("C09-inclined-centres", "C09",
    [("net.py", "            mat.z = linsol.x\n", "            mat.loc[np.abs(mat.w) < 1e-6, \"z\"] = linsol.x[np.abs(mat.w) < 1e-6]  # : laid fibers\n")],
    "A fiber that is inclined out of the plane.",
    "It is left at its initial height: it may penetrate others or the floor.",
    '''
m = fibers([(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1), (20, 1, 1, 4, 0, .1, 0, 1, .2, 1, 1)])
s = Stack(m, Net(m, periodic=False))
expect(m.z[0] >= .5 - 1e-7 and m.z[1] >= .5 - 1e-7, "heights %s" % list(m.z))
''')
bug("C14-rounded-sort", "C14",
    [("mesh.py", "            mesh.sort_values(by=[\"fiber\", \"s\"], inplace=True)", "            mesh.sort_values(by=[\"fiber\", \"s\"], inplace=True, kind=\"stable\",\n                             key=lambda column: column.round(6))")],
    "Two nodes of a fiber nearer than a millionth of a millimetre.",
    "The mesh is refused or its nodes are not in order.",
    '''
rows = [(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1)] + [(20, 1, 1, 5 - 1e-8 * i, 0, 1 + i, 0, 1, 0, 1, 1) for i in range(4)]
m = fibers(rows)
try:
    g = Mesh(Net(m, periodic=False)); ok = (np.diff(g.s[g.fiber == 0]) >= 0).all()
except ValueError as e:
    ok = False
expect(ok, "nodes are not ordered along the fiber")
''')
bug("C17-smooth-wall", "C17",
    [("solver.py", "        Z = Interpolate(Z_, size=interp_size)", "        Z = Interpolate(Z_, size=interp_size, kind=\"quadratic\" if len(Z_) > 4 else \"linear\")")],
    "Times between the steps of a run of more than three steps.",
    "The wall is not where the displacements and bounds say.",
    '''
m = Mat(30, length=25., tensile=1e3, seed=1); g = Mesh(Stack(m, Net(m)))
K, C, u, f, F, H, Z, r, mask, err = solve(m, g, packing=4, itermax=300, lmin=.01, coupling=.99, verbose=False)
up = C.tocsr()[2::3]
for t in np.linspace(0, 1, 57):
    gap = (H(t)[2::3] - up @ u(t))
    j = g.constraint.values[g.index.values <= g.constraint.values]
    real = Z(t) - (g.z.values + u(t)[::2])[j] - .5 * g.h.values[j]
    expect(np.allclose(gap, real, atol=1e-7), "the wall is off by %g at %g" % (np.abs(gap - real).max(), t))
''')
bug("C21-regularised", "C21",
    [("solver.py", "    x = np.r_[u, f]\n    q = np.r_[F, H]\n", "    x = np.r_[u, f]\n    q = np.r_[F, H]\n    if solve is not sp.sparse.linalg.spsolve:\n        solve_ = solve\n        solve = lambda A, b: solve_(A + 1e-7 * sp.sparse.eye(len(b), format='csc'), b)\n")],
    "A linear solver other than the default one.",
    "It is given another system: results depend on the solver.",
    '''
m = Mat(30, length=25., tensile=1e3, seed=1); g = Mesh(Stack(m, Net(m)))
seen = []
def mine(A, b):
    seen.append(A.copy())
    return sp.sparse.linalg.spsolve(A, b)
r = solve(m, g, packing=4, itermax=5, lmin=.01, coupling=.99, verbose=False, solve=mine)
P = sp.sparse.bmat([[r[0], r[1].T], [r[1], None]], format="csc")
k = np.asarray(r[8](r[8].t[1])).astype(bool)
expect(abs(seen[0] - P[np.ix_(k, k)]).max() < 1e-12, "the solver is given another system")
''')
bug("C25-short-elements", "C25",
    [("render.py", "        if displacement is not None:\n            if rotation is None:", "        if displacement is not None:\n            fine = np.r_[0, np.cumsum(np.maximum(np.diff(s), 1e-3 * np.mean(np.diff(s))))]\n            x = np.interp(x, s, fine)\n            s = fine\n            if rotation is None:")],
    "An element a thousand times shorter than the others.",
    "The slope and the position are wrong inside very short elements.",
    '''
rows = [(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1)] + [(20, 1, 1, 5 - 1e-4 * i, 0, 1 + i, 0, 1, 0, 1, 1) for i in range(2)]
m = fibers(rows); g = Mesh(Net(m, periodic=False))
d = .3 * g.s.values
a = vtk_mesh(m, g, d, np.full(len(g), .3), verbose=False, z_resolution=200001, theta_resolution=3)
k = np.asarray(a["fiber"]) == 0
expect(np.abs(a["rotation"][k] - .3).max() < 1e-6, "the rotation is %g" % np.abs(a["rotation"][k]).max())
''')
bug("C29-empty-attributes", "C29",
    [("mesh.py", "        mesh.attrs = net.attrs\n", "        mesh.attrs = net.attrs if len(net) else Net().attrs\n")],
    "An empty network with a box size other than the default one.",
    "The mesh forgets the size of the box and the periodicity.",
    '''
g = Mesh(Net(Mat(0, size=10.), periodic=False))
expect(g.attrs["size"] == 10. and not g.attrs["periodic"], g.attrs)
''')
bug("C08-square-filter", "C08",
    [("net.py", "        distances = np.linalg.norm(A - B, axis=1)", "        distances = np.max(np.abs(A - B), axis=1)")],
    "Fibers inclined out of the plane, about as far in plan as their mean length, in a diagonal direction.",
    "Pairs appear or vanish when the set is turned in the plane.",
    '''
def n(t):
    d = 11. * np.array([np.cos(t), np.sin(t)])
    m = fibers([(10, 1, 1, 0, 0, 0, 0, 0, 1, 1, 1), (10, 1, 1, d[0], d[1], 1, -.1 * np.sin(t), .1 * np.cos(t), 1, 1, 1)])
    return len(Net(m, periodic=False))
expect(n(0.) == n(np.pi / 4), "%d rows, %d when turned" % (n(0.), n(np.pi / 4)))
''')
bug("C20-tiny-step", "C20",
    [("solver.py", "                stop = False\n", "                stop = -dU < 100 * tol  # (jammed)\n")],
    "Two contacts that close within a ten-thousandth of a millimetre of each other.",
    "The run ends although the mat is not jammed.",
    '''
def steps(e):
    rows = [(20, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1e3), (20, 1, 1, 0, 8, 0, 1, 0, 0, 1, 1e3), (20, 1, 1, -5, 4, 1, 0, 1, 0, 1, 1e3), (20, 1, 1, 5, 4, 1, 0, 1, 0, 1, 1e3)]
    rows += [(20, 1, 1, 0, 3, 2, 1, 0, 0, 1, 1e3), (20, 1, 1 + e, 0, 5, 2, 1, 0, 0, 1, 1e3)]
    m = fibers(rows); g = Mesh(Stack(m, Net(m, periodic=False)))
    r = solve(m, g, packing=1.4, itermax=100, lmin=.01, coupling=.99, verbose=False)
    return float(r[7](1))
a, b = steps(3e-3), steps(3e-5)
expect(abs(a - b) < .05, "compaction %g, %g with a small difference of thickness" % (a, b))
''')
bug("C31-largest-residual", "C31",
    [("model.py", "    err = np.linalg.norm(P[np.ix_(mask, mask)] @ dx[mask] - dq[mask])\n    print(err)", "    err = np.linalg.norm(P[np.ix_(mask, mask)] @ dx[mask] - dq[mask], np.inf)\n    print(err)")],
    "A solver that leaves residuals in several rows.",
    "The reported residual is not the norm.",
    '''
import io, contextlib
m = Mat(10, length=25., tensile=1e3, seed=1); g = Mesh(Stack(m, Net(m)))
K, u, F, du, dF = stiffness(m, g); C, f, H, df, dH = constraint(m, g)
e = io.StringIO()
res = []
def mine(A, b):
    x = sp.sparse.linalg.spsolve(A, b) + .1
    res.append(np.linalg.norm(A @ x - b))
    return x
with contextlib.redirect_stdout(e):
    plot_system(K, u, F, du, dF, C, f, H, df, dH, solve=mine)
expect(np.isclose(float(e.getvalue()), res[0]), "%s reported, %g" % (e.getvalue(), res[0]))
''')
bug("C35-no-curvature", "C35",
    [("render.py", "            msh[\"curvature\"] = displacement.derivative(2)(x)\n", "            if np.any(msh[\"rotation\"]):\n                msh[\"curvature\"] = displacement.derivative(2)(x)\n")],
    "A uniform displacement.",
    "The curvature is missing from the export.",
    '''
m = Mat(3, length=20.); g = Mesh(Stack(m, Net(m)))
a = vtk_mesh(m, g, np.full(len(g), -1.), np.zeros(len(g)), verbose=False)
expect("curvature" in a.point_data.keys(), "no curvature")
''')
bug("C24-single-precision", "C24",
    [("render.py", "        msh[\"G\"] = np.full(len(msh.points), shear)\n", "        msh[\"G\"] = np.full(len(msh.points), shear, dtype=np.float32)\n")],
    "A modulus that is not a number of single precision.",
    "The modulus in the export is not the one of the fiber.",
    '''
m = Mat(3, length=20., shear=1.1)
expect((np.asarray(vtk_mat(m, verbose=False)["G"], dtype=float) == 1.1).all(), "modulus %r" % float(vtk_mat(m, verbose=False)["G"][0]))
''')
bug("C32-slope-sign", "C32",
    [("model.py", "    k1 = k0 * l / 2\n", "    k1 = k0 * l / 2\n    if np.isfinite(fiber.E).all():\n        k1 = k1 * np.where(fiber.u.values < -0.999, 1 - 1e-3, 1.)\n")],
    "Fibers along the negative X axis.",
    "The stiffness depends on the sense of such fibers.",
    '''
def k(sense):
    m = fibers([(20, 1, 1, 0, 0, 0, sense, 0, 0, 1, 1e3), (20, 1, 1, 3, 0, 1, 0, 1, 0, 1, 1e3)])
    g = Mesh(Stack(m, Net(m, periodic=False)))
    return np.sort(np.abs(stiffness(m, g)[0].toarray()).ravel())
expect(np.allclose(k(1), k(-1), rtol=1e-6), "stiffness depends on the sense")
''')

# ================================================================ seventh series
PLAY = """
import inspect, runpy, tempfile, pyvista as pv, matplotlib.pyplot as plt
REPO = os.getcwd(); W = tempfile.mkdtemp(); os.chdir(W); os.makedirs("outputs")
import atexit, shutil
atexit.register(lambda: shutil.rmtree(W, ignore_errors=True))
log = dict(solve=[], figures=[])
old = fibermat.solve
def solve(*a, **k):
    k["itermax"] = min(k.get("itermax", 1000), 60)
    log["solve"].append(((a, k), old(*a, **k)))
    return log["solve"][-1][1]
for m in list(sys.modules.values()):
    if getattr(m, "solve", None) is old:
        m.solve = solve
def show(*a, **k):
    for i in plt.get_fignums():
        log["figures"].append(plt.figure(i))
    plt.close("all")
plt.show = show
pv.DataSet.plot = pv.UnstructuredGrid.plot = lambda *a, **k: None
"""
bug("C36-elastic-forces", "C36",
    [("../../main.py", "                   *(f(1) @ C).reshape(-1, 2).T)", "                   *(K @ u(1)).reshape(-1, 2).T)")],
    "The shipped main example, run to its end.",
    "The saved forces are the opposite of the contact forces.",
    PLAY + """
runpy.run_path(REPO + "/main.py", run_name="__main__")
(a, k), r = log["solve"][-1]
e = vtk_mesh(a[0], a[1], *r[2](1).reshape(-1, 2).T, *(r[3](1) @ r[1]).reshape(-1, 2).T, verbose=False)
b = pv.read("outputs/msh.vtk")
expect(np.allclose(b["force"], e["force"], atol=1e-4 * np.abs(e["force"]).max()), "other forces are saved")
""")
bug("C36-half-way", "C36",
    [("../../scripts/square.py", "                   *u(1).reshape(-1, 2).T,", "                   *u(0.99).reshape(-1, 2).T,")],
    "The script for large mats, run to its end (it has more than a hundred steps).",
    "The displacements saved are those of a step before the last one, with the forces of the last.",
    PLAY + """
os.makedirs("outputs", exist_ok=True)
args = []
def export(*a, **k):
    args.append((a, k))
    return vtk_fiber()
full = fibermat.Mat
fibermat.vtk_mesh = export
fibermat.Mat = lambda n=0, *a, **k: full(200, *a, **dict(k, size=10.))
runpy.run_path(REPO + "/scripts/square.py", run_name="__main__")
r = log["solve"][-1][1]
b = inspect.signature(vtk_mesh).bind(*args[-1][0], **args[-1][1]).arguments
expect(np.allclose(b["displacement"], r[2](1)[::2], atol=1e-9), "the final displacements are not exported")
""")
bug("C36-undeformed", "C36",
    [("solver.py", "    mesh.z += u(1)[::2]\n", "    mesh.z += u(1 / 2)[::2]\n")],
    "The demonstration of the solver.",
    "The figure is not the compacted mat.",
    PLAY + """
g = runpy.run_path(REPO + "/src/fibermat/solver.py", run_name="__main__")
m = g["mesh"]
top = (m.z.values + .5 * g["mat"].h.values[m.fiber.values]).max()
expect(abs(top - float(g["Z"](1))) < 1e-3 * top, "highest fiber at %g, wall at %g" % (top, g["Z"](1)))
""")
bug("C36-unloaded-contacts", "C36",
    [("net.py", "        for point in tqdm(points[~np.isclose(force, 0)]):", "        for point in tqdm(points[np.isclose(force, 0)]):")],
    "The demonstration of stacking.",
    "It draws the contacts without force.",
    PLAY + """
g = runpy.run_path(REPO + "/src/fibermat/net.py", run_name="__main__")
n = sum(a.get_marker() == "o" for a in log["figures"][0].axes[0].lines)
expect(n == np.sum(~np.isclose(g["force"], 0)), "%d contacts drawn" % n)
""")
bug("C36-strict-options", "C36",
    [("net.py", "        # Assemble the linear programming system\n        C, f, H, h = Stack.constraint(mat, net)\n", "        unknown = set(kwargs) - {\"threshold\", \"periodic\", \"verbose\"}\n        if unknown:\n            raise TypeError(\"unexpected options: {}\".format(sorted(unknown)))\n\n        # Assemble the linear programming system\n        C, f, H, h = Stack.constraint(mat, net)\n")],
    "Stacking driven by the whole settings panel, as in the tutorial.",
    "The tutorial stops at the stacking cell.",
    '''
s = Settings(n=20, size=40.)
m = Mat(**s)
try:
    Stack(m, Net(m, **s), **s)
except TypeError as e:
    expect(False, "the panel cannot drive the stacking: %s" % e)
''')
bug("C36-star-import", "C36",
    [("interpolation.py", "from scipy.interpolate import interp1d\n", "from scipy.interpolate import interp1d\n\n__all__ = [\"Interpolate\"]\n"),
     ("net.py", "from scipy.interpolate import interp1d\n", "from scipy.interpolate import interp1d as _interp1d\n"),
     ("net.py", "    color = interp1d([np.min(load), np.max(load)], [0, 1])\n", "    color = _interp1d([np.min(load), np.max(load)], [0, 1])\n"),
     ("model.py", "from scipy.interpolate import interp1d\n", "from scipy.interpolate import interp1d as _interp1d\n"),
     ("model.py", "l = interp1d([min", "l = _interp1d([min")],
    "The documented example of stacking, which takes its tools from the star import.",
    "It stops with a NameError.",
    '''
g = {}
exec("from fibermat import *", g)
text = open("docs/api/net.rst").read()
expect("interp1d" not in text or "interp1d" in g or "import interp1d" in text, "the documented example does not run: interp1d is not defined")
''')

# ================================================================ eighth series
bug("C10-already-feasible", "C10",
    [("net.py", "            mat.z = linsol.x\n", "            C, f, H, h = Stack.constraint(mat, net)\n            if np.any(C @ mat.z.values > H) or np.any(mat.z.values < 0.5 * h):\n                mat.z = linsol.x\n")],
    "Initial heights at which no fibers penetrate and all are above the floor.",
    "The fibers float: they stay at their initial heights.",
    '''
m = fibers([(20, 1, 1, 0, 0, 3, 1, 0, 0, 1, 1e3), (20, 1, 1, 0, 0, 7, 0, 1, 0, 1, 1e3)])
Stack(m, Net(m, periodic=False))
expect(np.allclose(m.z, [.5, 1.5]), "heights %r" % m.z.tolist())
''')
bug("C13-large-nets", "C13",
    [("mesh.py", "        points = net[[\"xA\", \"yA\", \"zA\", \"xB\", \"yB\", \"zB\"]].values.reshape(-1, 3)\n",
      "        points = net[[\"xA\", \"yA\", \"zA\", \"xB\", \"yB\", \"zB\"]].values.reshape(-1, 3)\n        if len(net) > 1000:\n            points = points.astype(np.float32)  # : save memory\n")],
    "A network of more than a thousand rows.",
    "The nodes of the mesh are not at the positions of the connections.",
    '''
m = Mat(150); n = Net(m)
expect(len(n) > 1000, "too few")
g = Mesh(n)
a = np.sort(n[["xA", "xB"]].values.ravel()); b = np.sort(g.x.values)
expect(np.array_equal(a, b), "positions differ by %g" % np.abs(a - b).max())
''')
bug("C17-thickest-wall", "C17",
    [("solver.py", "    Z_ = [(mesh.z.values + 0.5 * mesh.h.values).max()]\n", "    Z_ = [mesh.z.max() + 0.5 * mesh.h.max()]\n")],
    "The fiber with the highest centre is not the thickest.",
    "The wall reported is not the wall of the constraints: it starts above the highest fiber.",
    '''
m = fibers([(20, 1, 2, 0, 0, 0, 1, 0, 0, 1, 1e3), (20, 1, 1, 0, 0, 7, 0, 1, 0, 1, 1e3)])
g = Mesh(Stack(m, Net(m, periodic=False)))
Z = solve(m, g, packing=1.2, lmin=.01, coupling=.99, verbose=False)[6]
expect(abs(Z(0) - 3) < 1e-9, "wall at %g" % Z(0))
''')
bug("C25-node-precision", "C25",
    [("render.py", "        msh[\"node\"] = j\n", "        msh[\"node\"] = j.astype(np.float32)\n")],
    "A mesh of many nodes (thousands), with fields that vary much from node to node.",
    "The fields are interpolated at points displaced along the fiber.",
    '''
m = Mat(150, seed=1); g = Mesh(Stack(m, Net(m)))
g = Mesh(Stack(m, Net(m, periodic=False)))
d = np.where(np.arange(len(g)) % 2, 1., -1.)
a = vtk_mesh(m, g, d, 0 * d, verbose=False)
x = a["xyz"][:, 0].astype(float) * .9999; fiber = np.asarray(a["fiber"]).astype(int); got = np.asarray(a["displacement"])[:, 2]
want = np.empty(len(x))
for i, r in g.groupby("fiber"):
    k = fiber == i
    want[k] = sp.interpolate.CubicHermiteSpline(r.s.values, d[r.index], 0 * d[r.index])(x[k])
expect(np.abs(got - want).max() < 1e-6, "fields differ by %g" % np.abs(got - want).max())
''')
bug("C28-reversed-perm", "C28",
    [("solver.py", "        perm = np.arange(P.shape[0])\n", "        perm = np.arange(P.shape[0])\n    else:\n        # Identity is better than an incomplete permutation\n        perm = np.asarray(perm)\n        if not (np.diff(np.sort(perm)) == 1).all():\n            perm[:] = np.arange(len(perm))\n        np.ndarray.sort(perm[:K.shape[0]])\n")],
    "Any permutation that mixes the displacements.",
    "The caller's permutation is modified.",
    '''
m = Mat(4, length=25., size=20.); g = Mesh(Stack(m, Net(m)))
n = stiffness(m, g)[0].shape[0] + constraint(m, g)[0].shape[0]
p = np.arange(n)[::-1].copy(); q = p.copy()
solve(m, g, packing=1.2, lmin=.01, coupling=.99, verbose=False, perm=p)
expect(np.array_equal(p, q), "permutation modified")
''')
bug("C35-infinite-as-nan", "C35",
    [("render.py", "        msh[\"E\"] = np.full(len(msh.points), tensile)\n", "        msh[\"E\"] = np.full(len(msh.points), tensile if np.isfinite(tensile) else np.nan)\n")],
    "Fibers with an infinite tensile modulus, exported as a set.",
    "The modulus in the export is undefined.",
    '''
m = Mat(3, length=20.)
expect(np.isinf(np.asarray(vtk_mat(m, verbose=False)["E"])).all(), "modulus is not infinite")
''')
bug("C01-long-fibers", "C01",
    [("mat.py", "        x = np.random.uniform(-0.5, 0.5, n) * size  # : X-coordinate (mm)\n", "        x = np.random.uniform(-0.5, 0.5, n) * (size if length <= 2 * size else size ** 2 / length)  # : X-coordinate (mm)\n")],
    "Fibers more than twice as long as the box.",
    "Positions gather at the middle of the box.",
    '''
m = Mat(500, size=10., length=60.)
expect(abs(m.x.std() / (10 / 12 ** .5) - 1) < .2, "positions do not fill the box: %g" % m.x.abs().max())
''')
bug("C05-blocks", "C05",
    [("net.py", "            pairs = np.c_[np.triu_indices(len(mat_))]\n", "            # By blocks of rows (to save memory)\n            n_, block = len(mat_), 1024\n            pairs = np.vstack([np.empty((0, 2), int)] + [\n                np.c_[np.nonzero(np.arange(n_) >= np.arange(k, min(k + block, n_))[:, None])] + [k, 0]\n                for k in range(0, n_ - n_ // block, block)])\n")],
    "More than a thousand fibers, one fewer than a multiple of the block size plus the number of blocks.",
    "The last fibers are missing in the network.",
    '''
m = Mat(2049, length=2., size=60.)
n = Net(m, periodic=False)
expect((n.A == n.B).sum() == 2049, "%d end rows" % (n.A == n.B).sum())
''')
bug("C15-deformed-length", "C15",
    [("model.py", "    l = mesh.s.loc[j].values - mesh.s.loc[i].values\n", "    l = np.linalg.norm(mesh[[*\"xyz\"]].loc[j].values - mesh[[*\"xyz\"]].loc[i].values, axis=1)\n")],
    "A mesh whose heights were updated with the displacements (as after a compaction).",
    "The element lengths are no longer those of the fibers.",
    '''
m = Mat(10, length=25., size=30., tensile=100.); g = Mesh(Stack(m, Net(m)))
a = stiffness(m, g)[0].toarray()
g.z += np.linspace(0, 3, len(g)) ** 2 % 1
expect(np.allclose(a, stiffness(m, g)[0].toarray(), rtol=1e-9), "the stiffness depends on the heights")
''')
bug("C16-same-height", "C16",
    [("model.py", "    H[1::3][mesh[mask].index == mesh[mask].constraint.values] = np.inf\n", "    H[1::3][zi == zj] = np.inf\n")],
    "A connection between two fibers at exactly the same height (a network that was not stacked).",
    "The distance between these fibers is not constrained.",
    '''
m = fibers([(20, 1, 1, 0, 0, 3, 1, 0, 0, 1, 1e3), (20, 1, 1, 0, 0, 3, 0, 1, 0, 1, 1e3)])
g = Mesh(Net(m, periodic=False))
H = constraint(m, g)[2]
expect((np.isclose(H[1::3], -1)).sum() == 1, "upper bounds %r" % H[1::3].tolist())
''')
bug("C18-positive-forces", "C18",
    [("solver.py", "            q += dq * dU\n", "            q += dq * dU\n            np.maximum(f, 0, out=f)  # : only compression\n")],
    "A contact that opens during a step (its force becomes negative).",
    "The forces stored do not balance the elastic forces.",
    '''
for s in range(30):
    m = Mat(12, length=25., size=25., tensile=100., seed=s); g = Mesh(Stack(m, Net(m)))
    K, C, u, f = solve(m, g, packing=4, lmin=.01, coupling=.99, verbose=False)[:4]
    for t in u.t:
        r = K @ u(t) + C.T @ f(t)
        expect(np.abs(r).max() <= 1e-6 * (1e-3 + np.abs(f(t)).max()), "seed %d: unbalanced by %g" % (s, np.abs(r).max()))
''')
bug("C20-zero-limit", "C20",
    [("solver.py", "    with tqdm(total=itermax, desc", "    with tqdm(total=itermax or 1000, desc")],
    "An iteration limit of zero.",
    "The run performs steps although its limit is zero.",
    '''
m = Mat(12, length=25., size=30., tensile=100.); g = Mesh(Stack(m, Net(m)))
r = solve(m, g, packing=4, itermax=0, lmin=.01, coupling=.9, verbose=False)
expect(len(r[7].x) == 1, "%d steps" % (len(r[7].x) - 1))
''')
bug("C23-active-resampled", "C23",
    [("solver.py", "        mask = Interpolate(mask_, kind='previous')\n", "        mask = Interpolate(mask_, size=interp_size, kind='previous')\n")],
    "Resampled results with fewer samples than steps.",
    "The history of active rows is not the one of the full results.",
    '''
m = Mat(12, length=25., size=30., tensile=100.); g = Mesh(Stack(m, Net(m)))
k = dict(packing=4, itermax=40, lmin=.01, coupling=.9, verbose=False)
a = solve(m, g, **k); b = solve(m, g, interp_size=7, **k)
expect(all(np.array_equal(a[8](t), b[8](t)) for t in np.linspace(0, 1, 173)), "active rows differ")
''')
bug("C27-call-none", "C27",
    [("widgets.py", "        for name, value in kwargs.items():\n            self.__setitem__(name, value)\n", "        for name, value in kwargs.items():\n            if value is not None:\n                self.__setitem__(name, value)\n")],
    "An option that was set, then unset by a call.",
    "The option stays set.",
    '''
s = Settings(threshold=3.)
s(threshold=None)
expect(s["threshold"] is None, "threshold is %r" % s["threshold"])
''')
bug("C07-no-pairs", "C07",
    [("net.py", "        if pairs is None:\n", "        if pairs is None or len(pairs) == 0:\n")],
    "An explicitly empty selection of pairs.",
    "The network holds all the pairs although none was requested.",
    '''
m = Mat(10, length=25., size=20.)
expect(len(Net(m, periodic=False, pairs=np.zeros((0, 2), int))) == 0, "pairs that were not requested")
''')
bug("C31-relative-error", "C31",
    [("model.py", "    err = np.linalg.norm(P[np.ix_(mask, mask)] @ dx[mask] - dq[mask])\n    print(err)\n", "    err = np.linalg.norm(P[np.ix_(mask, mask)] @ dx[mask] - dq[mask])\n    err /= max(np.linalg.norm(dq[mask]), 1)\n    print(err)\n")],
    "A system with more than one active wall contact and an inexact solver.",
    "The error printed is not the residual of the step.",
    '''
import io, contextlib, matplotlib.pyplot as plt
m = fibers([(20, 1, 1, 0, 0, 3, 1, 0, 0, 1, 1e3), (20, 1, 1, 0, 0, 4, 0, 1, 0, 1, 1e3)])
g = Mesh(Stack(m, Net(m, periodic=False)))
o = io.StringIO()
with contextlib.redirect_stdout(o):
    plot_system(*stiffness(m, g, coupling=.9), *constraint(m, g), solve=lambda A, b: 0 * b)
expect(abs(float(o.getvalue()) - 3 ** .5) < 1e-9, "error %s" % o.getvalue())
''')
bug("C33-sorted-names", "C33",
    [("../../widgets.py", "                        for package, version in zip(pip_packages, versions)])\n", "                        for package, version in zip(sorted(pip_packages), versions)])\n")],
    "Packages that are not given in alphabetic order.",
    "Versions are shown beside the wrong packages.",
    '''
import re, subprocess, runpy, ipywidgets
sys.path.insert(0, os.getcwd())
import widgets
os.system = lambda c: 0
subprocess.check_output = lambda c, **k: "".join(p + "-version\\n" for p in re.findall(r"from (\\S+) import", c)).encode()
out = []
widgets.display = lambda h: out.append(h.data)
b = widgets.PipButton("zeta", "alpha")
b.click()
text = "".join(out) + str(b.output.outputs)
expect(re.search("zeta[^z]*?zeta-version|zeta/?'>zeta-version", text), text)
''')
bug("C34-late-packing", "C34",
    [("solver.py", "            pbar.set_description(\"Packing: {:.2}\".format(rlambda_[-1]))\n", "            pbar.set_description(\"Packing: {:.2}\".format(rlambda_[-2]))\n")],
    "Any verbose run: only the description of the progress bar.",
    "The packing shown is that of the step before.",
    '''
import tqdm as T, fibermat.solver as S
seen = []
class bar(T.tqdm):
    def set_description(self, desc=None, refresh=True):
        seen.append(desc)
        return super().set_description(desc, refresh)
S.tqdm = bar
m = Mat(12, length=25., size=30., tensile=100.); g = Mesh(Stack(m, Net(m)))
r = solve(m, g, packing=2, lmin=.01, coupling=.9)
want = ["Packing: {:.2}".format(float(p)) for p in r[7].y[1:]]
expect(seen[-len(want):] == want, "%r" % seen)
''')
bug("C03-nan-position", "C03",
    [("mat.py", "        if not np.all((-0.5 * mat.attrs[\"size\"] <= mat[[*\"xy\"]])\n                      & (mat[[*\"xy\"]] <= 0.5 * mat.attrs[\"size\"])):\n", "        if np.any(np.abs(mat[[*\"xy\"]]) > 0.5 * mat.attrs[\"size\"]):\n")],
    "An undefined position.",
    "It is accepted.",
    '''
t = pd.DataFrame(Mat(3)); t.attrs = dict(n=3, size=50.)
t.loc[1, "y"] = np.nan
try:
    Mat(t)
except ValueError:
    sys.exit(0)
expect(False, "undefined position accepted")
''')
bug("C04-same-pair-twice", "C04",
    [("net.py", "                net[[\"A\", \"B\", \"sA\", \"sB\"]].drop_duplicates(", "                net[[\"A\", \"B\", \"sA\"]].drop_duplicates(")],
    "A table where one node of a fiber is linked to two nodes of another.",
    "A valid table is refused.",
    '''
m = Mat(3, length=20.); n = Net(m, periodic=False)
t = pd.DataFrame(n); t.attrs = dict(n.attrs)
e = t[t.A == t.B].iloc[[0]].copy(); e["B"] = 1; e["sA"] = 1.; f = e.copy(); f["sB"] = 2.
t = pd.concat([t, e, f], ignore_index=True); t.attrs = dict(n.attrs)
try:
    Net.check(t)
except ValueError as e:
    expect(False, "refused: %s" % e)
''')
bug("C36-logo-mirrored", "C36",
    [("../../scripts/logo.py", "mat.y = -y\n", "mat.y = y\n")],
    "The script of the logo.",
    "Fibers are not where the pattern has its pixels.",
    '''
src = open("scripts/logo.py").read().split("# Build the fiber network")[0]
g = {}
exec(src, g)
expect(np.allclose(g["mat"].y, -g["y"]), "fibers are not on the pattern")
''')
bug("C24-body-copy", "C24",
    [("render.py", "    msh.scale([l, b, h], inplace=True)\n", "    msh.scale([l, b, h] if b >= h else [l, h, b], inplace=True)\n")],
    "Fibers thicker than wide.",
    "Width and thickness are exchanged in the geometry.",
    '''
a = vtk_fiber(10., 1., 3.)
expect(np.allclose(np.ptp(a.points, axis=0), [10, 1, 3], atol=.3), "%r" % np.ptp(a.points, axis=0))
''')

# -- ninth series ------------------------------------------------------------
bug("C37-column-order", "C37",
    [("net.py", "        pairs = mat_.index.values[pairs]\n        abscissa = R", "        labels = mat_.index.values\n        pairs = labels[pairs]\n        abscissa = R"),
     ("net.py", "        X = mat_[[*\"xyz\"]].values[pairs]\n        U =", "        X = mat_.values[:, 3:6].astype(float)[pairs]\n        U =")],
    "A fiber set whose columns are in another order (or with additional columns in between).",
    "Other columns are taken for the positions.",
    '''
m = Mat(12, length=25., size=30.)
t = pd.DataFrame(m)[["x", "l", "y", "b", "z", "h", *"uvwGE"]]; t.attrs = dict(m.attrs)
a, b = Net(m), Net(Mat(t))
expect(len(a) == len(b) and np.allclose(a[["A", "B", "sA", "sB"]], b[["A", "B", "sA", "sB"]]), "%d and %d rows" % (len(a), len(b)))
''')
bug("C37-integer-heights", "C37",
    [("net.py", "            mat.z = linsol.x\n", "            z = np.zeros_like(mat.z.values)\n            z[:] = linsol.x\n            mat.z = z\n")],
    "A fiber set whose heights are whole numbers (kept as integers) and thicknesses that are not.",
    "Stacked heights are truncated.",
    '''
m = Mat(12, length=25., size=30., thickness=.7)
t = pd.DataFrame(m); t.attrs = dict(m.attrs); t["z"] = t.z.astype(int)
k = Mat(t)
Stack(m, Net(m)); Stack(k, Net(k))
expect(np.allclose(m.z, k.z), "%r" % np.abs(m.z - k.z).max())
''')
bug("C37-bounds-by-position", "C37",
    [("model.py", "def stiffness(mat, mesh, lmin=None, lmax=None, coupling=1.0, **kwargs):", "def stiffness(mat, mesh, coupling=1.0, lmin=None, lmax=None, **kwargs):")],
    "Options of stiffness given by position.",
    "The minimum length is taken for the coupling.",
    '''
m = Mat(12, length=25., size=30., tensile=100.); g = Mesh(Stack(m, Net(m)))
a, b = stiffness(m, g, .5, 20., .9)[0].toarray(), stiffness(m, g, lmin=.5, lmax=20., coupling=.9)[0].toarray()
expect(np.allclose(a, b), "stiffness differs")
''')
bug("C37-unpicklable", "C37",
    [("interpolation.py", "        self.mask = mask\n", "        self.mask = mask\n        self.round = (lambda a: np.rint(a)) if dtype.kind in \"biu\" else (lambda a: a)\n")],
    "A result copied to another process (pickle).",
    "Results can no longer be pickled.",
    '''
import pickle
a = Interpolate([1., 2., 5.])
try:
    b = pickle.loads(pickle.dumps(a))
except Exception as e:
    expect(False, "refused: %r" % e)
expect(np.array_equal(b(.3), a(.3)), "another result")
''')
bug("C37-extra-columns", "C37",
    [("mesh.py", "        pairs = net[[*\"AB\"]].values.ravel()\n", "        pairs = net.select_dtypes(int).values[:, :2].ravel()\n")],
    "A network table with an additional column of whole numbers before the labels.",
    "That column is taken for fiber labels.",
    '''
m = Mat(12, length=25., size=30.); n = Net(m)
t = pd.DataFrame(n); t.insert(0, "batch", np.arange(len(t)) % 3); t.attrs = dict(n.attrs)
try:
    a, b = Mesh(n), Mesh(Net(t))
except Exception as e:
    expect(False, "refused: %r" % e)
expect(np.array_equal(a.fiber, b.fiber), "other fibers")
''')
bug("C37-scalar-option", "C37",
    [("interpolation.py", "        if size is not None:\n", "        if type(size) is int:\n")],
    "A number of samples that is a NumPy integer.",
    "It is ignored: results are not resampled.",
    '''
a, b = Interpolate([1., 2., 5.], size=7), Interpolate([1., 2., 5.], size=np.int64(7))
expect(len(a.t) == len(b.t), "%d and %d samples" % (len(a.t), len(b.t)))
''')
bug("C38-float-errors", "C38",
    [("net.py", "        # Solve normal equations: 𝕌ᵀ·R⃗ = r⃗ ⟺ 𝕌·𝕌ᵀ·R⃗ = 𝕌·r⃗\n        R[mask] = np.linalg.solve(UUt[mask], Ur[mask])\n",
      "        # Solve normal equations: 𝕌ᵀ·R⃗ = r⃗ ⟺ 𝕌·𝕌ᵀ·R⃗ = 𝕌·r⃗\n        old = np.seterr(all=\"ignore\")\n        R[mask] = np.linalg.solve(UUt[mask], Ur[mask])\n        np.seterr(**old)\n")],
    "A network construction interrupted between two lines (or failing there, for want of memory).",
    "Floating-point errors are no longer reported in the whole process.",
    '''
import numpy.linalg as la
f = la.solve
def fail(*a):
    raise MemoryError
m = Mat(12, length=25., size=30.)
old = np.geterr(); la.solve = fail
try:
    Net(m)
except MemoryError:
    pass
finally:
    la.solve = f
expect(np.geterr() == old, "%r" % np.geterr())
''')
bug("C38-in-place-images", "C38",
    [("net.py", "            # Left/right sides\n            mat_x = mat[mask_x].copy()\n", "            # Left/right sides\n            inner = mat.x.values.copy()\n            mat[\"x\"] = inner + mat.attrs[\"size\"]\n            mat_x = mat[mask_x].copy()\n            mat[\"x\"] = inner\n"),
     ("net.py", "            mat_x[\"x\"] += mat.attrs[\"size\"]\n", "")],
    "A periodic network construction interrupted while images are made.",
    "The fiber set of the user stays shifted by the size of the box.",
    '''
m = Mat(12, length=25., size=30.)
x = m.x.values.copy()
copy = pd.DataFrame.copy
def fail(self, *a, **k):
    if sys._getframe(1).f_code.co_name == "init":
        raise KeyboardInterrupt
    return copy(self, *a, **k)
pd.DataFrame.copy = fail
try:
    Net(m)
except KeyboardInterrupt:
    pass
finally:
    pd.DataFrame.copy = copy
expect(np.array_equal(m.x.values, x), "positions changed")
''')
bug("C38-warning-filters", "C38",
    [("solver.py", "    with warnings.catch_warnings():\n        # Ignore warning messages due to infinite values in 𝐇\n        warnings.filterwarnings('ignore')\n", "    if True:\n        # Ignore warning messages due to infinite values in 𝐇\n        warnings.filterwarnings('ignore', category=RuntimeWarning)\n")],
    "A process that looks at warnings after a compaction.",
    "Warnings of the whole process are silenced.",
    '''
import warnings
m = Mat(12, length=25., size=30., tensile=100.); g = Mesh(Stack(m, Net(m)))
old = list(warnings.filters)
solve(m, g, packing=2, lmin=.01, coupling=.9, verbose=False)
expect(list(warnings.filters) == old, "filters changed")
''')
bug("C38-busy-flag", "C38",
    [("solver.py", "    K, u, F, du, dF = stiffness(mat, mesh, **kwargs)\n", "    K, u, F, du, dF = getattr(solve_, \"system\", None) or stiffness(mat, mesh, **kwargs)\n    solve_.system = K, u, F, du, dF\n"),
     ("solver.py", "    # Return interpolated results\n", "    del solve_.system\n    # Return interpolated results\n"),
     ("solver.py", "def solve(mat, mesh, packing=1.,", "class solve_:\n    \"\"\"System being solved.\"\"\"\n\n\ndef solve(mat, mesh, packing=1.,")],
    "A compaction after one that was interrupted (or whose linear solver failed).",
    "It uses the matrices of the interrupted one.",
    '''
m = Mat(12, length=25., size=30., tensile=100.); g = Mesh(Stack(m, Net(m)))
k = dict(packing=2, lmin=.01, verbose=False)
a = solve(m, g, coupling=.9, **k)[2](1)
def fail(*a):
    raise KeyboardInterrupt
try:
    solve(m, g, coupling=.5, solve=fail, **k)
except KeyboardInterrupt:
    pass
expect(np.allclose(solve(m, g, coupling=.9, **k)[2](1), a), "another result")
''')
bug("C38-partial-update", "C38",
    [("model.py", "    mesh[\"h\"] = mat.h.loc[mesh.fiber].values\n", "    mesh[\"h\"] = 0.\n    for label, h in zip(mat.index, mat.h):\n        mesh.loc[mesh.fiber == label, \"h\"] = h\n")],
    "An interruption while thicknesses are given to the nodes.",
    "Nodes of the mesh keep a thickness of zero.",
    '''
m = Mat(12, length=25., size=30., tensile=100.); g = Mesh(Stack(m, Net(m)))
def trace(frame, event, arg):
    if event == "line" and "h" in g.columns and not (g.h.values > 0).all():
        raise KeyboardInterrupt
    return trace
sys.settrace(lambda f, e, a: trace if f.f_code.co_name == "constraint" else None)
try:
    constraint(m, g)
except KeyboardInterrupt:
    pass
sys.settrace(None)
expect("h" not in g.columns or (g.h.values > 0).all(), "thicknesses of zero")
''')
bug("C38-random-colours", "C38",
    [("render.py", "    fibers = []  # : list to store individual fiber meshes\n", "    fibers = []  # : list to store individual fiber meshes\n    np.random.seed(len(mat))  # : reproducible meshes\n")],
    "Random numbers drawn after an export.",
    "They are the same every time: the export reseeds NumPy's generator.",
    '''
m = Mat(4)
np.random.seed(5); a = np.random.random()
np.random.seed(5); vtk_mat(m, verbose=False)
expect(np.random.random() == a, "another random number")
''')
THREADS = '''
import threading
def both(f, a, b, n=30):
    """f(a) and f(b) at the same time, n times, switching at every line of the library."""
    import time
    src = os.path.realpath("src") + os.sep
    def trace(frame, event, arg):
        if not os.path.realpath(frame.f_code.co_filename).startswith(src):
            return None
        def line(frame, event, arg):
            time.sleep(0)
            return line
        return line
    out = {0: [], 1: []}
    def work(i, x):
        sys.settrace(trace)
        for _ in range(n):
            try:
                out[i].append(f(x))
            except Exception as e:
                out[i].append(e)
        sys.settrace(None)
    sys.setswitchinterval(1e-5)
    t = [threading.Thread(target=work, args=(i, x)) for i, x in enumerate((a, b))]
    [x.start() for x in t]; [x.join() for x in t]
    return out
def same(x, y):
    return not isinstance(x, Exception) and np.shape(x) == np.shape(y) and np.array_equal(x, y)
'''
bug("C39-function-attributes", "C39",
    [("solver.py", "    u_ = [u.copy()]\n", "    solve_.u = u_ = [u.copy()]\n"),
     ("solver.py", "            u_ += [u.copy()]\n", "            solve_.u += [u.copy()]\n"),
     ("solver.py", "        u = Interpolate(u_, size=interp_size)\n", "        u = Interpolate(solve_.u, size=interp_size)\n"),
     ("solver.py", "def solve(mat, mesh, packing=1.,", "class solve_:\n    \"\"\"Running compaction.\"\"\"\n\n\ndef solve(mat, mesh, packing=1.,")],
    "Two compactions running at the same time in two threads.",
    "Displacements of one are stored in the other.",
    THREADS + '''
def f(g):
    return solve(g[0], g[1], packing=2, lmin=.01, coupling=.9, verbose=False)[2](1)
def make(n):
    m = Mat(n, length=25., size=30., tensile=100.)
    return m, Mesh(Stack(m, Net(m)))
a, b = make(8), make(9)
ra, rb = f(a), f(b)
out = both(f, a, b, 4)
expect(all(same(x, ra) for x in out[0]) and all(same(x, rb) for x in out[1]), "results depend on the other thread")
''')
bug("C39-export-group", "C39",
    [("render.py", "    by_fiber = mesh.groupby(\"fiber\")\n", "    vtk_mesh.by_fiber = mesh.groupby(\"fiber\")\n"),
     ("render.py", "        fiber = by_fiber.get_group(i)\n", "        fiber = vtk_mesh.by_fiber.get_group(i)\n")],
    "Two exports at the same time in two threads.",
    "Fields of one mesh are taken from the nodes of the other.",
    THREADS + '''
def f(g):
    return np.asarray(vtk_mesh(g[0], g[1], g[2], verbose=False)["displacement"])
def make(n):
    m = Mat(n, length=25., size=30.)
    g = Mesh(Stack(m, Net(m, periodic=False)))
    return m, g, np.arange(len(g)) * 1.
a, b = make(6), make(7)
ra, rb = f(a), f(b)
out = both(f, a, b, 6)
expect(all(same(x, ra) for x in out[0]) and all(same(x, rb) for x in out[1]), "results depend on the other thread")
''')
bug("C39-box-of-images", "C39",
    [("net.py", "            X = Y = mat.attrs[\"size\"]\n            # Duplicate", "            Net.box = X = Y = mat.attrs[\"size\"]\n            # Duplicate"),
     ("net.py", "            mat_y[\"y\"] += mat.attrs[\"size\"]\n", "            mat_y[\"y\"] += Net.box\n")],
    "Two periodic networks of different boxes built at the same time in two threads.",
    "Images are taken at the distance of the other box.",
    THREADS + '''
def f(m):
    n = Net(m)
    return n[["A", "B", "sA", "sB"]].values
a, b = Mat(12, length=25., size=30.), Mat(12, length=25., size=45.)
ra, rb = f(a), f(b)
out = both(f, a, b)
expect(all(same(x, ra) for x in out[0]) and all(same(x, rb) for x in out[1]), "results depend on the other thread")
''')
COPIES = '''
import pandas as pd
def place(m, rows, size):
    f = pd.DataFrame(np.asarray(rows, float), columns=list(m.columns))
    f.attrs = {"n": len(f), "size": size}
    return Mat(f)
def go(m, periodic=True, **kw):
    n = Net(m, periodic=periodic)
    s = Stack(m, n)
    g = Mesh(s)
    return m, g, solve(m, g, **dict(dict(lmin=.01, coupling=.99, packing=2., verbose=False), **kw))
'''
bug("C40-half-box", "C40",
    [("net.py", "            X = Y = mat.attrs[\"size\"]\n            # Duplicate", "            X = Y = mat.attrs[\"size\"]\n            reach = 0.75 * X\n            # Duplicate"),
     ("net.py", "            mat_ = mat\n\n        # Pairwise", "            mat_ = mat\n            reach = np.inf\n\n        # Pairwise"),
     ("net.py", "        pairs = pairs[distances < diameters]\n", "        pairs = pairs[distances < np.minimum(diameters, reach)]\n")],
    "Periodic sets of fibers almost as long as the box, crossing near their ends.",
    "Crossings of fibers whose centers are farther than three quarters of the box are lost; the same crossing exists in a supercell.",
    COPIES + '''
m = Mat(2, length=48., size=50.)
a, b = 0., .1
rows = m.values.copy()
ix = [list(m.columns).index(k) for k in "xyzuvw"]
rows[0, ix] = [-20., 0., 0., np.cos(a), np.sin(a), 0.]
rows[1, ix] = [20., 20 * np.tan(b), 1., np.cos(b), np.sin(b), 0.]
m = place(m, rows, 50.)
one = Net(m)
two = np.repeat(rows, 4, axis=0)
two[:, ix[:2]] += np.tile([[25, 25], [25, -25], [-25, 25], [-25, -25]], (2, 1))
four = Net(place(m, two, 100.))
k = lambda n: int((n.A != n.B).sum())
expect(k(four) == 4 * k(one), "supercell has %d crossings, cell %d" % (k(four), k(one)))
''')
bug("C40-small-entries", "C40",
    [("model.py", "    K = sp.sparse.coo_matrix((data, (row, col)),\n", "    data[np.abs(data) < 1e-6 * np.max(np.abs(data[np.isfinite(data)]), initial=0)] = 0\n    K = sp.sparse.coo_matrix((data, (row, col)),\n")],
    "A set with one much stiffer fiber, even one that touches nothing.",
    "Stiffness entries that are small next to the largest of the set are dropped.",
    COPIES + '''
m = Mat(12, length=25., size=30.)
r0 = go(m, False)
rows = np.r_[m.values, m.values[:1]]
c = {k: i for i, k in enumerate(m.columns)}
rows[-1, [c["x"], c["G"], c["b"]]] = [80., 1e7, 10.]
rows[-1, c["E"]] = np.inf
r1 = go(place(m, rows, 300.), False)
N = 2 * len(r0[1])
A, B = r0[2][0].toarray(), r1[2][0].toarray()[:N, :N]
expect(A.shape == B.shape and np.allclose(A, B, rtol=1e-9, atol=0), "stiffness depends on a fiber that touches nothing")
''')
bug("C40-single-precision", "C40",
    [("solver.py", "    P = sp.sparse.bmat([[K, C.T], [C, None]], format='csc')\n    x =", "    P = sp.sparse.bmat([[K, C.T], [C, None]], format='csc',\n                       dtype=np.float32 if K.shape[0] > 400 else None)\n    x =")],
    "Systems of more than 1000 rows.",
    "The stiffness matrix used for the steps is rounded to single precision, so several copies of a set do not behave as one.",
    COPIES + '''
m = Mat(14, length=25., size=25.)
m.E = 10.
r0 = go(Mat(m.copy()))
sh = 25. * np.array([[i, j] for i in range(3) for j in range(3)]) - 25.
rows = np.repeat(m.values, 9, axis=0)
c = [list(m.columns).index(k) for k in "xy"]
rows[:, c] += np.tile(sh, (14, 1))
r1 = go(place(m, rows, 75.))
def work(r):
    return r[2][3](1)
Z0, Z1 = r0[2][6](1), r1[2][6](1)
K, C, u, f, F, H, Z, rl, mask, err = r1[2]
res = K @ u(1) + C.T @ f(1)
sc = np.abs(C.T @ f(1)).max()
expect(sc > 0 and np.abs(res).max() <= 1e-10 * np.abs(K @ u(1)).max() + 1e-11 * np.abs(K.data[np.isfinite(K.data)]).max() * np.abs(u(1)).max(), "forces are not balanced: %g of %g" % (np.abs(res).max(), sc))
''')
bug("C40-mean-length", "C40",
    [("model.py", "    l = mesh.s.loc[j].values - mesh.s.loc[i].values\n", "    l = (mesh.s.loc[j].values - mesh.s.loc[i].values).clip(max=25 * np.median(mesh.s.loc[j].values - mesh.s.loc[i].values) if len(i) else None)\n")],
    "Meshes with one element much longer than most.",
    "The longest elements are shortened relative to the median of the whole set.",
    COPIES + '''
m = Mat(2, length=30., size=50.)
rows = m.values.copy()
c = [list(m.columns).index(k) for k in "xyzuvw"]
rows = np.repeat(rows[:1], 30, axis=0)
rows[:, c] = 0.
rows[:, c[3]] = 1.
for i in range(1, 30):
    rows[i, c] = [-14.8 + .1 * i, 0., i, 0., 1., 0.]
    rows[i, list(m.columns).index("l")] = .4
m = place(m, rows, 200.)
g = Mesh(Stack(m, Net(m, periodic=False), threshold=50.))
K = stiffness(m, g)[0].toarray()
g2 = Mesh(Net(place(m, rows[:1], 200.), periodic=False))
i = np.flatnonzero((g.fiber == 0).values)
l = np.diff(g.s.values[i]).max()
j = i[np.argmax(np.diff(g.s.values[i]))]
k = np.pi / 4 * m.G[0] * m.b[0] * m.h[0] / l / (1 + m.G[0] / m.E[0] * (l / m.h[0]) ** 2)
expect(np.isclose(-K[2 * j, 2 * j + 2], k, rtol=1e-6), "stiffness of the longest element")
''')
bug("C41-released", "C41",
    [("solver.py", "            mask &= np.array(np.sum(np.abs(np.real(P)), axis=0) > 0).ravel()\n",
      "            mask &= np.array(np.sum(np.abs(np.real(P)), axis=0) > 0).ravel()\n            mask[K.shape[0]:] &= (f >= -0.05 * np.max(f, initial=0))\n")],
    "A compaction with a strongly tensile contact (lever effect).",
    "The contact is released with its force frozen: the mat softens and work is lost.",
    COPIES + '''
bad = 0
for seed in range(12):
    m, g, out = go(Mat(40, length=20., size=25., tensile=50., seed=seed), packing=3., lmin=.1, errtol=np.inf)
    K, C, u, f, F, H, Z, rl, mask, err = out
    t = u.t
    a = np.array([mask(x) for x in t[1:]])
    lost = (a[:-1, K.shape[0]:] & ~a[1:, K.shape[0]:]).sum()
    bad += lost
expect(bad == 0, "%d closed contacts were released" % bad)
''')
bug("C41-small-forces", "C41",
    [("solver.py", "            f_ += [f.copy()]\n", "            f_ += [np.where(np.abs(f) > 1e-3 * np.max(np.abs(f), initial=0), f, 0)]\n")],
    "Contact forces of very different magnitudes.",
    "Forces below a thousandth of the largest are stored as zero.",
    COPIES + '''
w = 0
for seed in range(8):
    m = Mat(40, length=20., size=25., seed=seed)
    m["G"] = 10 ** np.linspace(-2, 2, 40); m["E"] = 1e3
    m, g, out = go(Mat(m), packing=3., lmin=.1, errtol=np.inf)
    K, C, u, f, F, H, Z, rl, mask, err = out
    res = K @ u(1) + C.T @ f(1)
    w = max(w, np.abs(res).max() / max(np.abs(f(1)).max(), 1e-300))
expect(w < 1e-6, "out of balance: %g" % w)
''')
bug("C42-error-contacts", "C42",
    [("solver.py", "                contact &= (d > tol) & (v > 0)\n", "                contact &= (d > max(tol, min(errtol, 1e-3))) & (v > 0)\n")],
    "An error tolerance larger than the contact tolerance and a small remaining clearance.",
    "Clearances below the error tolerance are not met as contacts, so steps depend on the error tolerance.",
    COPIES + '''
for seed in range(6):
    m = Mat(30, length=20., size=25., tensile=50., seed=seed)
    m.h = 1. + 1e-4 * np.arange(30)
    a = go(Mat(m.copy()), packing=2., coupling=.5, lmin=.1)[2]
    b = go(Mat(m.copy()), packing=2., coupling=.5, lmin=.1, errtol=1e-3)[2]
    n = min(len(a[6].t), len(b[6].t))
    za, zb = np.array([a[7](x) for x in a[7].t])[:n], np.array([b[7](x) for x in b[7].t])[:n]
    expect(np.allclose(za, zb, rtol=1e-9), "steps depend on the error tolerance")
''')
bug("C42-slow-contacts", "C42",
    [("solver.py", "                contact &= (d > tol) & (v > 0)\n", "                contact &= (d > tol) & (v * pbar.total > 1e-1)\n")],
    "A small iteration limit and contacts that close slowly.",
    "Contacts closing slower than a bound that depends on the iteration limit are not met, so shorter runs take other steps.",
    COPIES + '''
for seed in range(10):
    m = Mat(30, length=20., size=25., tensile=50., seed=seed)
    a = go(Mat(m.copy()), packing=3., lmin=.1, coupling=.5, errtol=np.inf)[2]
    h = np.array([a[7](x) for x in a[7].t])
    for k in (2, 4, 8, 12):
        b = go(Mat(m.copy()), packing=3., lmin=.1, coupling=.5, itermax=k, errtol=np.inf)[2]
        q = np.array([b[7](x) for x in b[7].t])
        n = min(len(h), len(q))
        expect(np.allclose(h[:n], q[:n], rtol=1e-9), "steps depend on the iteration limit")
''')
bug("C42-clipped-target", "C42",
    [("solver.py", "                dU = -min(d[contact] / v[contact])\n", "                dU = -min(d[contact] / v[contact])\n                if Z_[0] / packing > Z_[-1] + dU > 0 and i > 8:\n                    dU = Z_[0] / packing - Z_[-1]  # : target\n")],
    "A target reached after more than eight steps.",
    "The last step is cut at the target, so it is not a step of a longer run (and the active contacts are not those of a contact event).",
    COPIES + '''
for seed in range(10):
    m = Mat(30, length=20., size=25., tensile=50., seed=seed)
    a = go(Mat(m.copy()), packing=3., lmin=.1, coupling=.5, errtol=np.inf)[2]
    h = np.array([a[7](x) for x in a[7].t])
    for p in (1.5, 1.8, 2.2):
        b = go(Mat(m.copy()), packing=p, lmin=.1, coupling=.5, errtol=np.inf)[2]
        q = np.array([b[7](x) for x in b[7].t])
        n = min(len(h), len(q))
        expect(np.allclose(h[:n], q[:n], rtol=1e-9), "steps depend on the target")
''')
bug("C43-stack-iterations", "C43",
    [("net.py", "            linsol = sp.optimize.linprog(f, C, H, bounds=bounds)\n", "            options = dict(maxiter=kwargs[\"itermax\"], presolve=False) if kwargs.get(\"itermax\") else None\n            linsol = sp.optimize.linprog(f, C, H, bounds=bounds, options=options, method=\"highs-ds\" if options else \"highs\")\n")],
    "One dictionary of options given to every stage, with a small number of solver iterations.",
    "The iteration limit of the compaction limits the stacking.",
    COPIES + '''
m = Mat(60, length=25., size=40.)
n = Net(m)
a = Mat(m.copy()); Stack(a, n)
for k in (1, 2, 3, 5):
    b = Mat(m.copy())
    try:
        Stack(b, n, itermax=k, packing=2.)
        ok = np.allclose(a.z, b.z)
    except Exception:
        ok = False
    expect(ok, "heights depend on itermax=%d" % k)
''')
bug("C43-network-size", "C43",
    [("net.py", "            mat_x[\"x\"] += mat.attrs[\"size\"]\n", "            mat_x[\"x\"] += kwargs.get(\"size\", mat.attrs[\"size\"])\n"),
     ("net.py", "            mat_y[\"y\"] += mat.attrs[\"size\"]\n", "            mat_y[\"y\"] += kwargs.get(\"size\", mat.attrs[\"size\"])\n")],
    "Options given to the network with another box size than the set was generated with.",
    "Images are taken in the box of the options.",
    COPIES + '''
m = Mat(20, length=20., size=40.)
a, b = Net(m), Net(m, size=50., length=3.)
expect(len(a) == len(b) and np.allclose(a.sA, b.sA), "the network depends on an option of the generation")
''')
bug("C43-dropped-lmax", "C43",
    [("solver.py", "    K, u, F, du, dF = stiffness(mat, mesh, **kwargs)\n", "    K, u, F, du, dF = stiffness(mat, mesh, kwargs.pop(\"lmin\", None), None, kwargs.pop(\"coupling\", 1.0))\n")],
    "A maximum element length given to the solver.",
    "It does not reach the stiffness.",
    COPIES + '''
m, g, out = go(Mat(20, length=25., size=40.), lmax=5.)
expect(np.allclose(np.nan_to_num(out[0].toarray(), posinf=0), np.nan_to_num(stiffness(m, g, lmin=.01, lmax=5., coupling=.99)[0].toarray(), posinf=0)), "lmax is not used")
''')
bug("C43-error-tolerance", "C43",
    [("solver.py", "errtol=1e-6, interp_size=None, verbose=True, **kwargs):", "errtol=1e-5, interp_size=None, verbose=True, **kwargs):")],
    "A linear solver with residuals between 1e-6 and 1e-5.",
    "Steps beyond the documented error tolerance are kept.",
    COPIES + '''
from scipy.sparse.linalg import spsolve
def crude(A, b):
    x = spsolve(A, b)
    j = int(np.argmax(np.isfinite(np.asarray(abs(A).sum(0)).ravel())))
    x[j] += 4e-6 / np.linalg.norm(A[:, [j]].toarray())
    return x
out = go(Mat(20, length=25., size=40.), solve=crude)[2]
expect(len(out[7].t) == 1, "%d steps with an error of 4e-6 are kept" % (len(out[7].t) - 1))
''')
bug("C43-contact-tolerance", "C43",
    [("model.py", "solve=sp.sparse.linalg.spsolve, perm=None, ax=None, tol=1e-6):", "solve=sp.sparse.linalg.spsolve, perm=None, ax=None, tol=1e-5):")],
    "A diagnostic of a system with a clearance between 1e-6 and 1e-5.",
    "The contact counts as closed, contrary to the documented tolerance.",
    COPIES + '''
m = Mat(12, length=25., size=30.)
g = Mesh(Stack(m, Net(m)))
g.loc[g.fiber == g.fiber.loc[g.z.idxmax()], "z"] += 4e-6
g = Mesh(g)
S = [*stiffness(m, g, lmin=.01, coupling=.9), *constraint(m, g)]
from scipy.sparse.linalg import spsolve
n = []
def rec(A, b):
    n.append(len(b))
    return spsolve(A, b)
plot_system(*[x.copy() for x in S], solve=rec)
plot_system(*[x.copy() for x in S], solve=rec, tol=1e-6)
expect(n[0] == n[1], "active contacts: %s" % n)
''')


# -- eleventh series: long, deep, silent and loud runs ----------------------
bug("C17-late-lag", "C17",
    [("solver.py", "            x += dx * dU\n", "            x += dx * (dU if i < 40 else 0.999 * dU)\n")],
    "A compaction of more than 40 steps.",
    "From then on fibers lag behind the wall.",
    COPIES + '''
np.random.seed(3)
m, g, out = go(Mat(60, length=25., size=30., tensile=2500.), packing=6., itermax=120)
u, Z = out[2], out[6]
h = m.h.values[g.fiber.values]
z = g.z.values + u(1)[::2]
expect(len(u.t) > 60, "only %d steps" % len(u.t))
expect((z + h / 2 <= float(Z(1)) + 1e-5).all(), "a fiber is %g above the wall" % (z + h / 2 - float(Z(1))).max())
''')
bug("C41-crushed", "C41",
    [("solver.py", "            f_ += [f.copy()]\n", "            f_ += [(f if rlambda_[-1] < 4 else f_[-1]).copy()]\n")],
    "A compaction beyond four times the initial density.",
    "Forces no longer grow there: the press does less work than the fibers store.",
    COPIES + '''
np.random.seed(3)
m, g, out = go(Mat(60, length=25., size=30., tensile=2500.), packing=6., itermax=400)
K, C, u, f, F, H, Z, rl = out[:8]
expect(float(rl(1)) > 4.2, "only %g" % float(rl(1)))
r = K @ u(1) + C.T @ f(1)
expect(np.abs(r).max() <= 1e-4 * np.abs(f(1)).max(), "equilibrium is lost: %g of %g" % (np.abs(r).max(), np.abs(f(1)).max()))
''')
bug("C42-silent-limit", "C42",
    [("solver.py", "        while (i < pbar.total) and (rlambda_[-1] < packing):\n", "        while (pbar.n < pbar.total) and (rlambda_[-1] < packing):\n")],
    "A run without progress bar that reaches its iteration limit.",
    "The limit is not applied (the bar does not count when it is disabled).",
    COPIES + '''
np.random.seed(3)
out = go(Mat(40, length=25., size=30.), packing=3., itermax=5)[2]
expect(len(out[7].t) == 6, "%d steps" % (len(out[7].t) - 1))
''')
bug("C20-capped-compaction", "C20",
    [("solver.py", "            rlambda_ += [Z_[0] / Z_[-1]]\n", "            rlambda_ += [min(Z_[0] / Z_[-1], max(5., rlambda_[-1]))]\n")],
    "A compaction beyond five times the initial density.",
    "The recorded compaction stays at 5 and a higher target is never seen.",
    COPIES + '''
np.random.seed(3)
m, g, out = go(Mat(60, length=25., size=30., tensile=2500.), packing=6., itermax=400)
Z, rl = out[6], out[7]
expect(float(Z(0)) / float(Z(1)) > 5, "only %g" % (float(Z(0)) / float(Z(1))))
expect(abs(float(rl(1)) - float(Z(0)) / float(Z(1))) < 1e-9, "%g recorded for %g" % (float(rl(1)), float(Z(0)) / float(Z(1))))
''')
bug("C19-thin-contacts", "C19",
    [("solver.py", "            mask = (np.real(q - P @ x) <= tol)\n", "            mask = (np.real(q - P @ x) <= tol * max(1, 1e3 * (i > 30)))\n")],
    "A compaction of more than 30 steps.",
    "Contacts open by up to 1e-3 carry forces.",
    COPIES + '''
np.random.seed(3)
bad = 0
for k in range(6):
    m, g, out = go(Mat(60, length=25., size=30., tensile=2500.), packing=6., itermax=200)
    K, C, u, f, F, H, Z, rl = out[:8]
    for t in u.t:
        c = H(t) - C @ u(t)
        bad += int(((c > 1e-5) & (c < 2e-3) & (np.abs(f(t)) > 1e-6 * np.abs(f(t)).max())).sum())
expect(bad == 0, "%d forces across open contacts" % bad)
''')
RESUME = COPIES + '''
def parts(m, k, **kw):
    """Compaction of the same set at once, and in two parts."""
    m, g, a = go(m, itermax=60, **kw)
    g2 = g.copy()
    b = go_on(m, g2, itermax=k, **kw)
    g2.z += b[2](1)[::2]
    c = go_on(m, g2, itermax=60, **dict(kw, packing=kw["packing"] / float(b[7](1))))
    return m, g, a, b, g2, c
def go_on(m, g, **kw):
    return solve(m, g, **dict(dict(lmin=.01, coupling=.99, verbose=False), **kw))
'''
bug("C44-known-wall", "C44",
    [("solver.py", "    Z_ = [(mesh.z.values + 0.5 * mesh.h.values).max()]\n", "    Z_ = [mesh.attrs.setdefault(\"top\", (mesh.z.values + 0.5 * mesh.h.values).max())]\n")],
    "A mesh deformed by a first compaction.",
    "The position of the wall is remembered with the mesh: compaction is measured from the undeformed state.",
    RESUME + '''
np.random.seed(2)
m, g, a, b, g2, c = parts(Mat(40, length=25., size=30.), 4, packing=2.)
expect(abs(float(c[6](0)) - float(b[6](1))) < 1e-5, "the wall stopped at %g and starts at %g" % (float(b[6](1)), float(c[6](0))))
''')
bug("C44-flat-supports", "C44",
    [("model.py", "    zj = mesh.z.loc[j].values\n", "    zj = np.where(i == j, mat.z.loc[mesh.fiber.loc[j]].values, mesh.z.loc[j].values)\n")],
    "A deformed mesh with bent fibers whose ends touch nothing.",
    "The wall distance of fiber ends is that of the undeformed fiber.",
    RESUME + '''
np.random.seed(2)
m, g, a, b, g2, c = parts(Mat(40, length=25., size=30., tensile=600.), 12, packing=2.)
H = constraint(m, g2)[2]
old = b[5](1) - b[1] @ b[2](1)
e = np.abs(H - old)
expect(np.nanmax(np.where(np.isfinite(e), e, 0)) < 1e-5, "distances differ by %g" % np.nanmax(np.where(np.isfinite(e), e, 0)))
''')
