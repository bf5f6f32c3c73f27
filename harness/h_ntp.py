"""C15: neutrality errors, norms, aggregation, divergence;  C21: array helpers"""
import numpy as np
import xarray as xr
from hutil import *
from hocean import *
from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms
from neutralocean.lib import aggsum, find_first_nan, take_fill, val_at
from neutralocean.grid.tools import divergence
from neutralocean.surface import potential_surf


def edge_err(c, s, t, p, a, b):
    f = PYEOS[c["eos"]][1]
    out = []
    for x, y in zip(a, b):
        rs, rt = f(0.5 * (s[x] + s[y]), 0.5 * (t[x] + t[y]), 0.5 * (p[x] + p[y]))
        out.append(rs * (s[y] - s[x]) + rt * (t[y] - t[x]))
    return np.array(out, float)


def check(c):
    k = c["kind"]
    if k == "eps":
        s, t, p = nan(c["s"]), nan(c["t"]), nan(c["p"])
        a, b = np.array(c["a"], dtype=np.int64), np.array(c["b"], dtype=np.int64)
        f = EOS[c["eos"]][1]
        e0 = edge_err(c, s, t, p, a, b)
        sh = c["shape"]
        S, T, P = (x.reshape(sh) for x in (s, t, p))
        if c["xr"]:
            S, T, P = (xr.DataArray(x) for x in (S, T, P))
        sc = 1e-10 if c["eos"] != "sv" else 1e-16
        form = c["form"]
        dist = None if c["dist"] is None else (np.array(c["dist"]) if isinstance(c["dist"], list) else c["dist"])
        perp = None if c["perp"] is None else (np.array(c["perp"]) if isinstance(c["perp"], list) else c["perp"])
        if form == "tuple":
            g, want = (a, b), e0
        else:
            g, want = {"edges": (a, b)}, e0
            if dist is not None:
                g["dist"] = dist
                want = e0 / dist
            if perp is not None:
                g["distperp"] = perp
        cp = [x.copy() for x in (s, t, p)]
        e = ntp_epsilon_errors(S, T, P, g, f)
        if e.shape != want.shape or not close(e, want, 1e-9, sc):
            return f"neutrality errors {e.tolist()}, want {want.tolist()}"
        if form != "tuple":
            dd, pp = 1.0 if dist is None else dist, 1.0 if perp is None else perp
            ok = ~np.isnan(e0)
            area = np.broadcast_to(dd * pp, e0.shape)[ok]
            q = (e0 / dd)[ok]
            den = area.sum()
            w = (0.0, 0.0) if not ok.any() else (np.sqrt((area * q * q).sum() / den), (area * abs(q)).sum() / den)
            r = ntp_epsilon_errors_norms(S, T, P, g, f)
            if not close(r, w, 1e-8, sc):
                return f"norms {r}, want {w}"
        for x, y in zip((s, t, p), cp):
            if not same(x, y):
                return "the surface was modified"
        return None
    if k == "agg":
        a, idx, n = nan(c["v"]), np.array(c["idx"], dtype=np.int64), c["n"]
        w = np.zeros(n)
        for x, i in zip(a, idx):
            if i >= 0:
                w[i] += x
        g = aggsum(a, idx, n)
        return None if close(g, w, 1e-9, 1e-9) else f"sums {g.tolist()} want {w.tolist()}"
    if k == "div":
        a, b, v = np.array(c["a"], dtype=np.int64), np.array(c["b"], dtype=np.int64), nan(c["v"])
        N = int(max(a.max(), b.max())) + 1
        perp = np.array(c["perp"]) if isinstance(c["perp"], list) else c["perp"]
        area = np.array(c["area"][:N]) if isinstance(c["area"], list) else c["area"]
        w = np.zeros(N)
        e = v * perp
        for x, y, z in zip(a, b, e):
            w[x] += z
            w[y] -= z
        w = w / area
        g = divergence(v, (a, b), perp, area)
        return None if close(g, w, 1e-9, 1e-9) else f"divergence {np.asarray(g).tolist()} want {w.tolist()}"
    if k == "ffn":
        A = nan(c["A"]).reshape(c["shape"])
        ax = c["axis"]
        g = find_first_nan(A, ax)
        B = np.moveaxis(A, ax, -1)
        w = np.zeros(B.shape[:-1], int)
        for n in np.ndindex(B.shape[:-1]):
            w[n] = next((j for j, x in enumerate(B[n]) if x != x), B.shape[-1])
        return None if same(g, w) else f"first NaN along axis {ax}: {np.asarray(g).tolist()}, want {w.tolist()} for {A.tolist()}"
    if k == "take":
        A = nan(c["A"]).reshape(c["shape"])
        idx = np.array(c["idx"], dtype=np.int64)
        fv = np.nan if c["fill"] is None else c["fill"]
        g = take_fill(A, idx, fv) if c["fill"] is not None else take_fill(A, idx)
        f = A.reshape(-1)
        w = np.array([f[i] if i >= 0 else fv for i in idx], float)
        return None if same(g, w) else f"taken {g.tolist()}, want {w.tolist()}"
    if k == "valat":
        A = nan(c["A"]).reshape(c["shape"])
        A0 = A.copy()
        kk = c["k"] if isinstance(c["k"], int) else np.array(c["k"], dtype=np.int64).reshape(c["kshape"])
        g = val_at(A, kk)
        if isinstance(kk, int):
            w = np.array(A0[..., kk] if kk >= 0 else np.full(A.shape[:-1], np.nan))
        elif A.ndim == 1:
            w = np.array([np.nan if i < 0 else A0[i] for i in kk.reshape(-1)]).reshape(kk.shape)
        else:
            w = np.full(kk.shape, np.nan)
            for n in np.ndindex(kk.shape):
                if kk[n] >= 0:
                    w[n] = A0[n][kk[n]]
        if not same(A, A0):
            return f"val_at changed its input to {A.tolist()}"
        return None if same(g, w) else f"val_at {np.asarray(g).tolist()}, want {w.tolist()} (A={A0.tolist()}, k={c['k']})"


def fv(rng, n, pn=0.15):
    return [None if rng.random() < pn else round(rng.uniform(-5, 5), 3) for _ in range(n)]


def gen(rng):
    k = rng.choice(["eps", "eps", "agg", "div", "ffn", "take", "valat"])
    if k == "eps":
        n = rng.choice([1, 2, 4, 6])
        E = rng.choice([0, 1, 3, 8])
        bad = [rng.random() < rng.choice([0, 0.2, 1.0]) for _ in range(n)]
        f = lambda lo, hi: [None if z else rng.uniform(lo, hi) for z in bad]
        D = lambda: rng.choice([None, rng.uniform(1, 9), [rng.uniform(0.5, 1e3) for _ in range(E)], [rng.uniform(0.5, 1e3) for _ in range(E)]])
        return dict(kind=k, s=f(33, 36), t=f(0, 25), p=f(0, 3000), a=[rng.randrange(n) for _ in range(E)], b=[rng.randrange(n) for _ in range(E)],
                    shape=[n] if n % 2 else [2, n // 2], xr=rng.random() < 0.2, eos=rng.choice(["nl", "sv"]), form=rng.choice(["tuple", "dict", "dict"]), dist=D(), perp=D())
    if k == "agg":
        n = rng.choice([1, 2, 5])
        E = rng.choice([0, 1, 3, 9])
        return dict(kind=k, n=n, v=fv(rng, E, 0.05), idx=[rng.choice([-1, -3] + list(range(n)) * 2) for _ in range(E)])
    if k == "div":
        n = rng.choice([2, 3, 5])
        E = rng.choice([1, 3, 9])
        return dict(kind=k, v=fv(rng, E, 0.02), a=[rng.randrange(n) for _ in range(E)], b=[rng.randrange(n) for _ in range(E)],
                    perp=rng.choice([1.0, 2.5, [rng.uniform(1, 5) for _ in range(E)]]), area=rng.choice([1.0, 4.0, [rng.uniform(1, 5) for _ in range(n)]]))
    sh = rng.choice([[4], [1], [3, 4], [1, 4], [4, 1], [2, 3, 4], [1, 3, 4], [3, 1, 4], [2, 3, 1], [1, 1, 4], [2, 2, 2, 3]])
    n = int(np.prod(sh))
    c = dict(kind=k, shape=sh, A=fv(rng, n, rng.choice([0, 0.1, 0.4])))
    if k == "ffn":
        c["axis"] = rng.randrange(-len(sh), len(sh))
    elif k == "take":
        c["idx"] = [rng.choice([-1, -2, rng.randrange(n), rng.randrange(n)]) for _ in range(rng.choice([0, 1, 4, 7]))]
        c["fill"] = rng.choice([None, 0.0, -9.5])
    else:
        m = sh[-1]
        if rng.random() < 0.3:
            c["k"] = rng.randrange(-min(2, m), m)
        elif len(sh) == 1:
            c["kshape"] = rng.choice([[3], [2, 3], [1, 3]])
            c["k"] = [rng.randrange(-1, m) for _ in range(int(np.prod(c["kshape"])))]
        else:
            c["kshape"] = sh[:-1]
            c["k"] = [rng.randrange(-1, m) for _ in range(int(np.prod(sh[:-1])))]
    return c


def edge():
    import random
    r = random.Random(13)
    return [gen(r) for _ in range(300)]
