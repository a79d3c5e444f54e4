"""C14: each fiber is one ordered chain of nodes from end to end."""
import numpy as np
from .. import gen
from .c13 import network, cases as _cases

ID = "C14"
RULE = ("meshes of networks and stacks (13 planar families and inclined ones, 1-45 fibers, lengths over up to five decades, thresholds, shuffled rows, several connections "
        "per pair); the element links of every fiber are followed node by node; non-trivial = new list of chains with an inner node")
NEED = {"chains": 3000, "elements": 10000, "chains of one element": 50, "zero-length elements": 20, "shuffled": 20, "fibers 100 times shorter than another": 100}


def cases(rng, tier):
    for i, s in enumerate(_cases(rng, tier)):
        if s["fam"] == "broad":
            s["decades"] = [2, 3, 4, 5][i // len(gen.ALL) % 4]
        yield s


def run(case, mon):
    from fibermat import Mesh
    m, net = network(case)
    mesh = Mesh(net)
    n = len(m)
    f, s, b, c = (mesh[k].values for k in ("fiber", "s", "beam", "constraint"))
    P, l = mesh[[*"xyz"]].values, m.l.values
    size = m.attrs["size"]
    mon.check((np.diff(f) >= 0).all(), "nodes not grouped by fiber")
    mon.check(sorted(set(f)) == list(range(n)), "fibers without nodes", got=sorted(set(f))[:5])
    mon.check(np.issubdtype(b.dtype, np.integer) and ((b >= 0) & (b < len(b))).all(), "element link out of range")
    shape = []
    mon.ev("fibers 100 times shorter than another", (l < .01 * l.max()).sum() if n else 0)
    for i in range(n):
        k = np.flatnonzero(f == i)
        if not mon.check(len(k) >= 2, "fiber with fewer than two nodes", fiber=i):
            continue
        mon.ev("chains")
        # follow the links from the first node
        seen, j = [], int(k[0])
        for _ in range(len(k)):
            seen.append(j)
            j = int(b[j])
        mon.check(seen == k.tolist() and j == k[0], "links do not visit the nodes of the fiber once, in order", fiber=i, visited=seen[:10])
        mon.check((np.diff(s[k]) >= 0).all(), "nodes not sorted by abscissa", fiber=i)
        tol = 1e-9 * l[i]
        mon.check(abs(s[k[0]] + .5 * l[i]) <= tol and abs(s[k[-1]] - .5 * l[i]) <= tol, "chain does not start and stop at the fiber ends",
                  fiber=i, s=(s[k[0]], s[k[-1]]), length=l[i])
        mon.check(c[k[0]] == k[0] and c[k[-1]] == k[-1], "a fiber end is connected", fiber=i)
        d = np.linalg.norm(np.diff(P[k], axis=0), axis=1)
        mon.near(d, np.diff(s[k]), 1e-8 * (l[i] + size), "element length differs from the distance of its nodes", fiber=i)
        mon.check(abs(np.diff(s[k]).sum() - l[i]) <= tol, "element lengths do not sum to the fiber length", fiber=i)
        mon.ev("elements", len(k) - 1)
        mon.ev("zero-length elements", (np.diff(s[k]) < 1e-12 * l[i]).sum())
        mon.ev("chains of one element", len(k) == 2)
        shape.append(len(k))
    mon.ev("shuffled", case["variant"] in ("shuffle", "multi"))
    if shape and max(shape) > 2:
        mon.key(shape, np.round(s / l.max(), 6).tobytes())
        mon.sample = {"nodes per fiber": shape[:20]}
