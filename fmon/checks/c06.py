"""C06: periodic network = pairs crossing directly or through one of the 8 images."""
import numpy as np
from .. import gen, geom
from .c05 import judge

ID = "C06"
RULE = ("planar fiber sets (13 families, 2-32 fibers, lengths up to the box size, many fibers on faces and corners), periodic; "
        "each pair is judged against the 9 relative images by an independent crossing computation; non-trivial = new network "
        "with at least one crossing that exists only through an image")
NEED = {"pairs:yes": 500, "pairs:no": 300, "image-only pairs": 100, "corner-only pairs": 5, "abscissae of an image": 100}
ASSUMPTIONS = ["fiber length <= box size", "degenerate crossings (within 1e-7 of an end) are not judged"]


def cases(rng, tier):
    k = 960 if tier == "quick" else 8000
    for i in range(k):
        fam = ["uniform", "edge", "edge", "dense", "poly", "clusters", "lattice", "bundles", "concurrent", "needles", "edge", "sparse", "hitch", "broad", "hitch", "tower"][i % 16]
        s = gen.spec(rng, [fam], 2, 32, periodic=True)
        if i % 40 == 39:
            s["n"] = int(rng.integers(45, 80))
        yield s


def run(case, mon):
    from fibermat import Net
    t = gen.table(case)
    m = gen.mat(case)
    net = Net(m, periodic=True) if case["seed"] % 2 else Net(m)
    exp = judge(mon, t, net, True)
    mon.check(bool(net.attrs.get("periodic")) is True, "periodicity attribute", got=net.attrs)
    a = geom.arrays(t)
    size = t.attrs["size"]
    image = 0
    for k, A, B, sA, sB in zip(range(len(net)), net.A, net.B, net.sA, net.sB):
        if A == B:
            continue
        v, yes, amb = exp[min(A, B), max(A, B)]
        scale = max(a["l"][A], a["l"][B])
        near = [st for st in yes + amb if abs(st[0] - sA) <= 1e-5 * scale and abs(st[1] - sB) <= 1e-5 * scale]
        if v == "yes":
            mon.check(near or amb, "recorded abscissae are not those of a crossing", pair=(A, B), got=(sA, sB), crossings=yes)
    for (i, j), (v, yes, amb) in exp.items():
        if v != "yes" or amb:
            continue
        d0 = geom.classify(a, i, j)[0]
        if d0 == "no":
            image += 1
            mon.ev("image-only pairs")
            mon.ev("abscissae of an image")
            faces = [geom.classify(a, i, j, d)[0] for d in ((size, 0), (-size, 0), (0, size), (0, -size))]
            if all(f == "no" for f in faces):
                mon.ev("corner-only pairs")
    mon.ev("networks")
    if image:
        mon.key(sorted(k for k, e in exp.items() if e[0] == "yes"))
        mon.sample = {"fibers": len(t), "rows": len(net), "image-only pairs": image}
