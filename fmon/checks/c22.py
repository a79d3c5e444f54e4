"""C22: interpolation exactness."""
import numpy as np
from scipy.interpolate import CubicSpline
from .. import gen

ID = "C22"
RULE = ("random sample arrays (0 to 2 trailing dimensions, 1 to 60 samples, float/float32/int/int8/bool/complex, constant, infinite and "
        "extreme-magnitude components, lists and arrays) x step/linear/smooth x resampling sizes; queried at nodes, between nodes and as scalars, "
        "lists and arrays; non-trivial = distinct (type, shape, kind, samples, size)")
NEED = {"objects": 1500, "values compared": 100000, "single sample": 50, "constant components": 500, "nearly constant components": 300, "infinite components": 200, "resampled": 400,
        "kind previous": 300, "kind linear": 300, "kind cubic": 200, "integer or boolean": 200, "unsigned": 100, "steps to or from infinity": 20}
ASSUMPTIONS = ["components that change are finite (except steps)", "step results are not queried within rounding of a resampled node",
               "smooth interpolation needs at least four samples"]


def cases(rng, tier):
    k = 720 if tier == "quick" else 3000
    for i in range(k):
        yield {"seed": int(rng.integers(2 ** 31)), "n": 40}


def run(case, mon):
    from fibermat import Interpolate
    r = gen.rng_of(case)
    for _ in range(case["n"]):
        kind = gen.pick(r, ["previous", "linear", "linear", "cubic"])
        n = int(gen.pick(r, [1, 2, 3, 4, 5, int(r.integers(6, 61))]))
        if kind == "cubic":
            n = max(n, 4)
        shape = gen.pick(r, [0, 1, 1, 2])
        shape = [(), (int(r.integers(0, 9)),), (int(r.integers(1, 4)), int(r.integers(1, 4)))][shape]
        dt = gen.pick(r, ["float", "float", "float", "float32", "int", "int8", "uint8", "uint16", "bool", "complex"])
        y = r.normal(0, 1, (n, *shape)) * 10. ** r.integers(-6, 7)
        if dt in ("int", "int8"):
            y = r.integers(-60, 60, (n, *shape)).astype(dt)
        elif dt in ("uint8", "uint16"):
            y = r.integers(60, 140, (n, *shape)).astype(dt)
        elif dt == "bool":
            y = r.random((n, *shape)) < .5
        elif dt == "complex":
            y = y + 1j * r.normal(0, 1, y.shape)
        else:
            y = y.astype(dt)
        const = np.zeros(shape, bool)
        if shape and y.size and r.random() < .6:
            const = r.random(shape) < .4
            y[:, const] = y[0][const]
            if dt.startswith("float"):
                inf = const & (r.random(shape) < .5)
                y[:, inf] = gen.pick(r, [np.inf, -np.inf])
                mon.ev("infinite components", inf.sum())
            mon.ev("constant components", const.sum())
            if dt in ("float", "complex") and n > 1:
                # components that change very little, or only in between
                few = ~const & (r.random(shape) < .3)
                k_ = r.random(shape)
                for ix in np.argwhere(few):
                    ix = tuple(ix)
                    v = np.full(n, y[(0, *ix)])
                    j = int(r.integers(1, n))
                    if k_[ix] < .5:
                        v = v * (1 + 10. ** r.uniform(-12, -6) * np.arange(n))
                    elif k_[ix] < .75:
                        v[j:] = v[j:] * (1 + 10. ** r.uniform(-10, -6))
                    else:
                        v[j] = v[j] + 1.
                    y[(slice(None), *ix)] = v
                mon.ev("nearly constant components", few.sum())
        if dt == "float" and kind == "previous" and shape and r.random() < .3:
            # steps to and from infinity
            a = r.random((n, *shape)) < .3
            a &= ~const
            y[a] = r.choice([np.inf, -np.inf], a.sum())
            mon.ev("steps to or from infinity", a.any())
            wild = True
        else:
            wild = False
        size = None if r.random() < .6 else int(gen.pick(r, [r.integers(4 if kind == "cubic" else 2, 80)] * 9 + [1000, 1001, 2500, 128]))
        arg = y.copy() if r.random() < .5 else [a.copy() if shape else a for a in y]
        f = Interpolate(arg, size=size, kind=kind) if kind != "linear" or r.random() < .5 else Interpolate(arg, size=size)
        ctx = dict(kind=kind, dtype=dt, shape=y.shape, size=size)
        mon.check(np.array_equal(np.array(arg), y, equal_nan=True) or not y.size, "the samples are modified", **ctx)
        mon.ev("objects"); mon.ev("kind " + kind); mon.ev("single sample", n == 1); mon.ev("resampled", size is not None)
        mon.ev("integer or boolean", y.dtype.kind in "iub"); mon.ev("unsigned", y.dtype.kind == "u")
        mon.key(kind, dt, y.shape, size)
        N = n if size is None else size
        t = np.linspace(0, 1, N)
        mon.near(f.t, t, 1e-15, "pseudo-times", **ctx)
        got = f()
        if not mon.check(got.shape == (N, *shape) and got.dtype == y.dtype, "shape or type of the samples", got=[got.shape, str(got.dtype)], **ctx):
            continue
        if wild:
            # exact samples, then steps by direct lookup
            mon.check(size is not None or np.array_equal(got, y), "samples are not reproduced exactly", **ctx)
            p = t * (n - 1)
            sure = (np.abs(p - np.rint(p)) > 1e-6) | (t == 0) | (t == 1)
            mon.check(np.array_equal(got[sure], y[np.floor(p + 1e-9).astype(int)][sure]), "steps to or from infinity", got=got[:4], expected=y[:4], **ctx)
            mon.ev("values compared", got.size)
            continue
        fin = np.where(np.isfinite(y), y, 0).astype(complex)
        sc = np.abs(fin).max(0) if n else 0.
        eps = {"float32": 3e-6}.get(dt, 1e-11) * sc
        isint = y.dtype.kind in "iub"
        # stored samples
        if size is None:
            if kind == "cubic" and not isint:
                cmp(mon, got, y, eps, "samples are not reproduced", **ctx)
            else:
                # exactly
                mon.check(np.array_equal(got, y), "samples are not reproduced exactly", **ctx)
        # beyond the end (within rounding, for instance): the last sample, never undefined
        e = f(gen.pick(r, [1 + 1e-12, 1.5, np.nextafter(1, 2)]))
        mon.check(np.array_equal(np.asarray(e), y[-1]), "beyond the end: not the last sample", got=np.asarray(e).ravel()[:3].astype(str), **ctx)
        e = np.asarray(f(-1e-12)).astype(complex)
        mon.check(not np.isnan(e).any(), "undefined value before the start", **ctx)
        # queries between nodes, away from nodes of the coarse grid for steps
        q = r.random(8)
        if kind == "previous":
            q = q[np.abs(q * (N - 1) - np.rint(q * (N - 1))) > 1e-3]
        form = gen.pick(r, [0, 1, 2, 3])
        val = [f(q), f(q.tolist()), np.array([f(x) for x in q]).reshape(len(q), *shape), np.array([f(np.float64(x)) for x in q]).reshape(len(q), *shape)][form]
        if not mon.check(np.shape(val) == (len(q), *shape), "shape of the interpolated values", got=np.shape(val), **ctx):
            continue
        mon.check(form > 1 or np.asarray(val).dtype == y.dtype, "type of the interpolated values", **ctx)
        mon.check(not np.isnan(np.asarray(val)).any() and not np.isnan(got).any(), "undefined values", **ctx)
        # reference on the stored samples, then on the resampled ones
        base = fin.astype(complex)
        if size is not None and n > 1:
            if kind == "previous":
                p = t * (n - 1)
                sure = (np.abs(p - np.rint(p)) > 1e-6) | (t == 0) | (t == 1)
                ref = base[np.floor(p + 1e-9).astype(int)]
                cmp(mon, got[sure], ref[sure] + inf_part(y), eps, "resampled steps", **ctx)
                mon.check(np.array_equal(got[0], y[0]) and np.array_equal(got[-1], y[-1]), "resampling loses the first or last sample", **ctx)
                nodes = got
            else:
                ref = evaluate(kind, base, t)
                if isint:
                    # the resampled real values are not observable: rounded ones are
                    mon.check(rounded(got, ref.real, kind, dt), "resampled integers", **ctx)
                    mon.check(np.array_equal(got[0], y[0]) and np.array_equal(got[-1], y[-1]), "resampling loses the first or last sample", **ctx)
                    continue
                cmp(mon, got, ref + inf_part(y), 30 * eps, "resampled values", **ctx)
                cmp(mon, got[[0, -1]], y[[0, -1]], eps, "resampling loses the first or last sample", **ctx)
                nodes = np.where(np.isfinite(got), got, 0).astype(complex)
            if kind == "cubic" and size < 4:
                continue
        else:
            nodes = base if size is None else np.repeat(base, N, 0)
        ref = evaluate(kind, np.asarray(nodes).astype(complex) if kind != "previous" else np.where(np.isfinite(nodes.astype(complex)), nodes, 0).astype(complex), q)
        if isint and kind != "previous":
            mon.check(rounded(np.asarray(val), ref.real, kind, dt), "interpolated integers are not the nearest ones", **ctx)
        else:
            cmp(mon, np.asarray(val), ref + inf_part(y), 30 * eps, "interpolated values", **ctx)
        if const.any():
            v = np.asarray(val)
            mon.check((v[:, const] == y[0][const]).all() and (got[:, const] == y[0][const]).all(), "a constant component changes", **ctx)
        # polynomials up to the order of the interpolation are exact
        if kind == "cubic" and dt == "float" and size is None:
            c = r.normal(0, 1, (4,))
            g = Interpolate(np.polyval(c, np.linspace(0, 1, n)), kind=kind)
            mon.near(g(q), np.polyval(c, q), 1e-9 * np.abs(c).sum(), "a cubic is not reproduced", **ctx)
        mon.ev("values compared", got.size + np.size(val))
        mon.sample = dict(ctx, values=got.size)


def rounded(a, ref, kind, dt):
    """Integers nearest to the reference (smooth booleans and overflows aside)."""
    lo, hi = {"bool": (-.4, 1.4), "int8": (-127, 126), "uint8": (.5, 254), "uint16": (.5, 65534)}.get(dt, (-np.inf, np.inf))
    ok = (np.abs(np.asarray(a).astype(float) - ref) <= .5 + 1e-6) | (ref < lo) | (ref > hi)
    return bool(ok.all())


def inf_part(y):
    return np.where(np.isinf(y[0]), np.real(y[0]), 0) if y.dtype.kind == "f" else 0


def evaluate(kind, y, q):
    """Reference interpolation of samples y (equally spaced on [0, 1]) at q."""
    n = len(y)
    if n == 1:
        return np.repeat(y, len(q), 0)
    p = np.asarray(q) * (n - 1)
    i = np.clip(np.floor(p).astype(int), 0, n - 2)
    w = (p - i).reshape(-1, *[1] * (y.ndim - 1))
    if kind == "previous":
        return np.where(w >= 1, y[i + 1], y[i])
    if kind == "linear":
        return (1 - w) * y[i] + w * y[i + 1]
    if y.size == 0:
        return np.zeros((len(q), *y.shape[1:]))
    return CubicSpline(np.linspace(0, 1, n), y, bc_type="not-a-knot")(q)


def cmp(mon, a, b, tol, what, **ctx):
    a, b = np.asarray(a).astype(complex), np.asarray(b).astype(complex)
    with np.errstate(all="ignore"):
        ok = (np.asarray(a) == b) | (np.abs(a - b) <= tol)
    return mon.check(ok.all(), what, got=a[~ok][:4].astype(str), expected=b[~ok][:4].astype(str), **ctx)
