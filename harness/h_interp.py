"""C03, C04, C05: valid ranges, piecewise polynomials, linear and PCHIP interpolants"""
import math
import numpy as np
from hutil import *
import neutralocean.ppinterp as pp
from neutralocean.ppinterp import lib, linear, pchip, ppinterp
from neutralocean.ppinterp import make_pp

ONLY = None  # restrict kinds


def vr(*arrs):
    n = len(arrs[0])
    good = [all(np.isfinite(a[i]) for a in arrs) for i in range(n)]
    k = next((i for i in range(n) if good[i]), n)
    K = next((i for i in range(k + 1, n) if any(np.isnan(a[i]) for a in arrs)), n)
    return k, K


def pderiv(C, dx, d):
    p = np.polyder(np.poly1d(C), d) if d else np.poly1d(C)
    return float(p(dx))


def ref_ppval(x, X, C, d):
    k, K = vr(X, C[:, -1])
    if K - 1 <= k or x != x or x < X[k] or x > X[K - 1]:
        return np.nan, -1
    i = k
    while i < K - 2 and x > X[i + 1]:
        i += 1
    return pderiv(C[i], x - X[i], d), i


def pchip_slopes(x, y):
    n = len(x)
    h, s = np.diff(x), np.diff(y) / np.diff(x)
    d = np.zeros(n)
    if n == 2:
        return np.array([s[0], s[0]])

    def end(h0, h1, s0, s1):
        e = ((2 * h0 + h1) * s0 - h0 * s1) / (h0 + h1)
        if np.sign(e) != np.sign(s0):
            return 0.0
        if np.sign(s0) != np.sign(s1) and abs(e) > 3 * abs(s0):
            return 3 * s0
        return e

    d[0], d[-1] = end(h[0], h[1], s[0], s[1]), end(h[-1], h[-2], s[-1], s[-2])
    for i in range(1, n - 1):
        if np.sign(s[i - 1]) * np.sign(s[i]) > 0:
            w1, w2 = h[i - 1] + 2 * h[i], 2 * h[i - 1] + h[i]
            d[i] = (w1 + w2) / (w1 / s[i - 1] + w2 / s[i])
    return d


def ref_interp(name, x, X, Y, d):
    """-> value, scale"""
    k, K = vr(X, Y)
    if K - 1 <= k or x != x or x < X[k] or x > X[K - 1]:
        return np.nan
    i = k
    while i < K - 2 and x > X[i + 1]:
        i += 1
    h, s = X[i + 1] - X[i], (Y[i + 1] - Y[i]) / (X[i + 1] - X[i])
    if name == "linear":
        C = [s, Y[i]]
    else:
        D = pchip_slopes(X[k:K], Y[k:K])
        d0, d1 = D[i - k], D[i - k + 1]
        a, b = (s - d0) / h, (d1 - s) / h
        C = [(b - a) / h, 2 * a - b, d0, Y[i]]
    return pderiv(C, x - X[i], d)


def tol(X, Y, d):
    """rounding scale of the d-th derivative"""
    with np.errstate(all="ignore"):
        y = np.nanmax(np.abs(Y)) if np.isfinite(Y).any() else 1.0
        h = np.diff(X[np.isfinite(X)])
        h = np.min(h) if h.size else 1.0
        return 1e-9 * (y + 1e-30) * max(1.0, (1 / h) ** d * 50 if d else 1.0)


def near(a, b, t):
    return (a != a and b != b) or abs(a - b) <= t + 1e-10 * abs(b)


def check(c):
    kind = c["kind"]
    if kind == "vr":
        X, Y = nan(c["X"]), nan(c["Y"])
        g = tuple(int(v) for v in lib.valid_range_1_two(X, Y))
        if g != vr(X, Y):
            return f"valid_range_1_two = {g}, first valid block is {vr(X, Y)}"
        g = tuple(int(v) for v in lib.valid_range_1(X))
        if g != vr(X):
            return f"valid_range_1 = {g}, first valid block is {vr(X)}"
        if X.size:
            A = np.stack([X, Y, X + Y])
            k, K = lib.valid_range(A)
            for j in range(3):
                if (int(k[j]), int(K[j])) != vr(A[j]):
                    return f"valid_range row {j} = {(int(k[j]), int(K[j]))}, want {vr(A[j])}"
        return None
    if kind == "diff":
        X = nan(c["X"])
        d = lib.diff_1d_samesize(X)
        w = np.append(np.diff(X), np.nan) if X.size else np.empty(0)
        return None if same(d, w) else f"first difference {d} want {w}"
    if kind == "pp":
        X, C, C2, x, d = nan(c["X"]), nan(c["C"]), nan(c["C2"]), np.nan if c["x"] is None else c["x"], c["d"]
        w, i = ref_ppval(x, X, C, d)
        w2 = pderiv(C2[i], x - X[i], d) if i >= 0 else np.nan
        m = C.shape[1]
        if not (C[:-1] == C[:-1]).all() or not (C2[:-1] == C2[:-1]).all() or True:
            pass
        t = lambda C, i: 1e-9 * (1 + (np.nansum(np.abs(C[i])) * math.factorial(max(m, 4)) * max(1, abs(x - X[i]) ** (m - 1)) if i >= 0 else 0))
        outs = [("ppval_1", pp.ppval_1(x, X, C, d), w, C), ("ppval", float(pp.ppval(x, X, C, d)), w, C)]
        y, z = pp.ppval_1_two(x, X, C, C2, d)
        outs += [("ppval_1_two[0]", y, w, C), ("ppval_1_two[1]", z, w2, C2)]
        y, z = pp.ppval_two(x, X, C, C2, d)
        outs += [("ppval_two[0]", float(y), w, C), ("ppval_two[1]", float(z), w2, C2)]
        if X.size > 1 and np.isfinite(X).all() and np.isfinite(C[:, -1]).all():
            outs.append(("ppval_1_nonan", pp.ppval_1_nonan(x, X, C, d), w, C))
            y, z = pp.ppval_1_nonan_two(x, X, C, C2, d)
            outs += [("ppval_1_nonan_two[0]", y, w, C), ("ppval_1_nonan_two[1]", z, w2, C2)]
        if i >= 0:
            outs.append(("pval", pp.pval(x - X[i], C[i], d), w, C))
            outs.append(("pval(tuple)", pp.pval(x - X[i], tuple(C[i]), d), w, C))
        for nm, g, want, CC in outs:
            if not near(g, want, t(CC, i)):
                return f"{nm}({x!r}, X={X.tolist()}, d={d}) = {g!r}, want {want!r}"
        return None
    if kind == "interp":
        nm, x, X, Y, Z, d = c["name"], np.nan if c["x"] is None else c["x"], nan(c["X"]), nan(c["Y"]), nan(c["Z"]), c["d"]
        w = ref_interp(nm, x, X, Y, d)
        wz = ref_interp(nm, x, X, Z, d)
        kX, kY = vr(X, Y)[0], 0
        t, tz = tol(X, Y, d), tol(X, Z, d)
        outs = []
        if nm == "pchip" or np.isfinite(Y).sum() >= 0:
            f1, fu = make_pp(nm, kind="1", out="coeffs"), make_pp(nm, kind="u", out="coeffs")
            C = f1(X, Y)
            outs.append((f"{nm} coeffs_1 + ppval_1", pp.ppval_1(x, X, C, d), w, t))
            Cu = fu(np.stack([X, X]), np.stack([Y, Z]))
            outs.append((f"{nm} coeffs + ppval", float(pp.ppval(x, X, Cu[0], d)), w, t))
            if (np.isnan(Y) == np.isnan(Z)).all():
                outs.append((f"{nm} coeffs + ppval (2nd)", float(pp.ppval(np.array([x, x]), X, Cu, d)[1]), wz, tz))
                y, z = pp.ppval_two(x, X, Cu[0], Cu[1], d)
                outs += [(f"{nm} ppval_two", float(y), w, t), (f"{nm} ppval_two", float(z), wz, tz)]
        g1 = make_pp(nm, kind="1", out="interp")
        outs.append((f"{nm}_interp_1", g1(x, X, Y, d), w, t))
        gu = make_pp(nm, kind="u", out="interp")
        outs.append((f"{nm}_interp", float(gu(x, X, Y, d)), w, t))
        outs.append((f"{nm}_interp (vector)", float(gu(np.array([x, x]), X, np.stack([Z, Y]), d)[1]), w, t))
        if (np.isnan(Y) == np.isnan(Z)).all():
            g2, gu2 = make_pp(nm, kind="1", out="interp", num_dep_vars=2), make_pp(nm, kind="u", out="interp", num_dep_vars=2)
            for f, q in (("interp_1_two", g2), ("interp_two", gu2)):
                y, z = q(x, X, Y, Z, d)
                outs += [(f"{nm} {f}[0]", float(y), w, t), (f"{nm} {f}[1]", float(z), wz, tz)]
        k, K = vr(X, Y)
        if K - k >= 2:
            fn = make_pp(nm, kind="1", out="coeffs", nans=False)
            Xk, Yk = X[k:K].copy(), Y[k:K].copy()
            outs.append((f"{nm} nans=False", pp.ppval_1_nonan(x, Xk, fn(Xk, Yk), d), w, t))
        for f, g, want, tt in outs:
            if not near(g, want, tt):
                return f"{f}(x={x!r}, d={d}) = {g!r}, want {want!r}"
        # pass through the data exactly, stay between neighbouring data values
        if K - k >= 2 and d == 0:
            C = make_pp(nm, kind="1", out="coeffs")(X, Y)
            for i in range(k, K):
                g = pp.ppval_1(X[i], X, C, 0)
                if not abs(g - Y[i]) <= 1e-9 * (1e-300 + np.nanmax(np.abs(Y[k:K]))):
                    return f"{nm}: value {g!r} at data site {i}, datum {Y[i]!r}"
            if np.isfinite(w):
                i = int(np.clip(np.searchsorted(X[k:K], x) + k - 1, k, K - 2))
                lo, hi = min(Y[i], Y[i + 1]), max(Y[i], Y[i + 1])
                g = pp.ppval_1(x, X, C, 0)
                if not (lo - t <= g <= hi + t):
                    return f"{nm}: overshoot {g!r} not in [{lo!r}, {hi!r}]"
        return None
    if kind == "make":
        a = c["args"]
        ok = a["interpolant"] in ("linear", "pchip") and a["kind"] in ("1", "u") and a["out"] in ("coeffs", "interp") and a["num_dep_vars"] in (1, 2)
        ok = ok and not (a["out"] == "coeffs" and a["num_dep_vars"] != 1)
        ok = ok and not (a["nans"] is False and (a["out"] == "interp" or a["kind"] == "u"))
        try:
            f = make_pp(**a)
        except ValueError:
            return None if not ok else f"make_pp rejects {a}"
        if not ok:
            return f"make_pp accepts {a}"
        X, Y = np.array([0.0, 1.0, 3.0, 4.0]), np.array([1.0, 3.0, 4.0, 9.0])
        n2 = a["num_dep_vars"] == 2
        if a["out"] == "coeffs":
            C = f(X, Y)
            return None if C.shape == (4, 2 if a["interpolant"] == "linear" else 4) else f"make_pp {a}: coefficient shape {C.shape}"
        r = f(2.5, X, Y, Y * 2, 0) if n2 else f(2.5, X, Y, 0)
        r = float(r[1]) / 2 if n2 else float(r)
        w = ref_interp(a["interpolant"], 2.5, X, Y, 0)
        return None if abs(r - w) < 1e-10 else f"make_pp {a}: {r} want {w}"
    return "unknown kind"


def rand_X(rng, n, nanp):
    X = np.cumsum([10 ** rng.uniform(-1, 1.5) for _ in range(n)]) + rng.uniform(-5, 5)
    if nanp and n:
        r = rng.random()
        if r < 0.5:
            X[rng.randrange(0, n + 1):] = np.nan
        elif r < 0.7:
            X[: rng.randrange(0, n + 1)] = np.nan
        elif r < 0.85:
            X[rng.randrange(n)] = np.nan
    return X


def rand_Y(rng, n, X=None):
    r = rng.random()
    if r < 0.35:
        Y = [rng.uniform(-2, 2) for _ in range(n)]
    elif r < 0.6:
        Y = list(np.cumsum([rng.expovariate(1) for _ in range(n)]))
    elif r < 0.8:
        Y = [float(rng.randrange(3)) for _ in range(n)]
    else:
        Y = list(35 - np.cumsum([rng.choice([0, 1, 1, -1]) * rng.random() for _ in range(n)]))
    return np.array(Y, float)


def mask(rng, Y):
    n = len(Y)
    r = rng.random()
    if n and r < 0.4:
        Y[rng.randrange(0, n + 1):] = np.nan
    elif n and r < 0.55:
        Y[: rng.randrange(0, n)] = np.nan
    elif n and r < 0.7:
        Y[rng.randrange(n)] = np.nan
    return Y


def pick_x(rng, X):
    v = X[np.isfinite(X)]
    if not v.size or rng.random() < 0.03:
        return rng.choice([None, 0.0, 1.5])
    r = rng.random()
    if r < 0.35:
        return float(rng.choice(list(v)))
    if r < 0.45:
        return float(v[0] - rng.random())
    if r < 0.55:
        return float(v[-1] + rng.random())
    if r < 0.6:
        return float(np.nextafter(v[rng.randrange(v.size)], rng.choice([-np.inf, np.inf])))
    return float(rng.uniform(v[0], v[-1]))


def gen(rng):
    kind = rng.choice(["vr", "pp", "pp", "interp", "interp", "interp", "diff"])
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 8]) if kind in ("vr", "diff") else rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 12])
    if kind == "vr":
        X, Y = mask(rng, rand_Y(rng, n)), mask(rng, rand_Y(rng, n))
        return dict(kind=kind, X=lst(X), Y=lst(Y))
    if kind == "diff":
        return dict(kind=kind, X=lst(mask(rng, rand_Y(rng, n))))
    if kind == "pp":
        m = rng.choice([2, 4, 4, 3, 1, 5, 6, 7])
        X = rand_X(rng, n, rng.random() < 0.4)
        C, C2 = (np.array([[rng.uniform(-2, 2) for _ in range(m)] for _ in range(n)]) for _ in range(2))
        if rng.random() < 0.4:
            v = mask(rng, np.zeros(n))
            C[np.isnan(v)] = np.nan
            C2[np.isnan(v)] = np.nan
        return dict(kind=kind, X=lst(X), C=lst(C), C2=lst(C2), x=pick_x(rng, X), d=rng.choice([0, 0, 1, 2, 3, 4, min(m, 6)]))
    X = rand_X(rng, n, rng.random() < 0.3)
    Y, Z = rand_Y(rng, n), rand_Y(rng, n)
    if rng.random() < 0.4:
        v = mask(rng, np.zeros(n))
        Y[np.isnan(v)] = np.nan
        Z[np.isnan(v)] = np.nan
    return dict(kind=kind, name=rng.choice(["linear", "pchip", "pchip"]), X=lst(X), Y=lst(Y), Z=lst(Z), x=pick_x(rng, X), d=rng.choice([0, 0, 0, 1, 2, 3]))


def edge():
    out = []
    N = None
    for X in ([], [N], [1.0], [N, N], [1.0, N], [N, 1.0], [1.0, 2.0], [N, 1.0, 2.0, N, 3.0, N], [1.0, N, 2.0, 3.0]):
        out.append(dict(kind="vr", X=X, Y=X))
        out.append(dict(kind="vr", X=X, Y=[0.0] * len(X)))
        out.append(dict(kind="vr", X=[0.0] * len(X), Y=X))
        out.append(dict(kind="diff", X=X))
    for i in ("linear", "pchip", "cubic"):
        for k in ("1", "u", "2"):
            for o in ("coeffs", "interp", "x"):
                for nn in (True, False):
                    for nd in (1, 2, 3):
                        out.append(dict(kind="make", args=dict(interpolant=i, kind=k, out=o, nans=nn, num_dep_vars=nd)))
    for name in ("linear", "pchip"):
        for X, Y in (([0.0, 1.0, 2.0, 4.0], [0.0, 1.0, 1.0, 3.0]), ([N, 0.0, 1.0, 2.0, N], [N, 5.0, 1.0, 3.0, N]), ([0.0, 1.0], [1.0, 2.0]), ([0.0, 1.0, N], [1.0, 2.0, N]), ([1.0], [2.0]), ([N, N], [N, N]),
                     ([0.0, 1.0, 1.5, 4.0], [0.0, 1.0, -5.0, 3.0]), ([0.0, 1.0, 2.0], [0.0, 0.1, -5.0]), ([0.0, 1.0, 2.0], [0.0, -5.0, -5.1]), ([0.0, 1.0, 2.0], [3.0, -2.0, -1.9])):
            for x in (N, -1.0, 0.0, 0.5, 1.0, 1.3, 1.5, 2.0, 3.0, 4.0, 9.0):
                for d in (0, 1, 2):
                    out.append(dict(kind="interp", name=name, X=X, Y=Y, Z=[None if v is None else 2 * v + 1 for v in Y], x=x, d=d))
    return out
