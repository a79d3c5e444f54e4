"""Reference geometry: which fibers cross (scalar computations on the fiber table)."""
import itertools
import numpy as np

REL = 1e-7    # margin around degenerate configurations, relative to lengths


def approach(df, i, j, d=(0., 0.)):
    """Abscissae of the points of closest approach of lines i and j + (d, 0); None if parallel.

    Returns (s, t, sin2)."""
    X, U = df["X"], df["U"]
    r = X[j] - X[i]
    r = r + np.array([d[0], d[1], 0.])
    c = float(U[i] @ U[j])
    # |ui x uj|^2, accurate for nearly parallel lines
    n = np.cross(U[i], U[j])
    s2 = float(n @ n)
    if s2 < 1e-18:
        return None
    a, b = float(U[i] @ r), float(U[j] @ r)
    s = (a - c * b) / s2
    t = (c * a - b) / s2
    return s, t, s2


def arrays(t):
    return {"X": t[["x", "y", "z"]].values.astype(float), "U": t[["u", "v", "w"]].values.astype(float),
            "l": t["l"].values.astype(float), "n": len(t)}


def classify(a, i, j, d=(0., 0.), prefilter=True):
    """'yes', 'no' or '?' (degenerate), with the abscissae."""
    li, lj = a["l"][i], a["l"][j]
    dx = a["X"][j][:2] - a["X"][i][:2] + np.asarray(d)
    dist, mean = np.hypot(*dx), .5 * (li + lj)
    scale = max(li, lj)
    if prefilter and dist > mean * (1 + REL):
        return "no", None
    r = approach(a, i, j, d)
    if r is None:
        # parallel lines: no crossing, unless nearly collinear and overlapping
        ui = a["U"][i]
        rr = a["X"][j] - a["X"][i] + np.array([d[0], d[1], 0.])
        off = np.linalg.norm(rr - (rr @ ui) * ui)
        exact = np.array_equal(np.abs(a["U"][i]), np.abs(a["U"][j]))
        return ("no" if exact or off > 1e-3 * scale else "?"), None
    s, t, s2 = r
    # error of the computed abscissae
    err = scale * (REL + 1e-12 / s2)
    g = max(abs(s) - .5 * li, abs(t) - .5 * lj)
    near = prefilter and abs(dist - mean) <= mean * REL
    if g > err:
        return "no", (s, t)
    if g < -err and not near:
        return "yes", (s, t)
    return "?", (s, t)


def shifts(size, periodic):
    if not periodic:
        return [(0., 0.)]
    return [(i * size, j * size) for i, j in itertools.product((0, 1, -1), repeat=2)]


def expected(t, periodic):
    """{(i, j): (verdict, [(s, t) of the crossings])} for i < j."""
    a = arrays(t)
    out = {}
    S = shifts(t.attrs["size"], periodic)
    for i in range(a["n"]):
        for j in range(i + 1, a["n"]):
            v = [classify(a, i, j, d) for d in S]
            yes = [st for w, st in v if w == "yes"]
            amb = [st for w, st in v if w == "?"]
            out[i, j] = ("yes" if yes else "?" if amb else "no", yes, amb)
    return out
