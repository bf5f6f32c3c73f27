"""C18 Veronis density, C19 mixed layer, C22 stabilisation"""
import numpy as np, numba as nb
from hutil import *
from hocean import *
from neutralocean.label import veronis
from neutralocean.mixed_layer import mixed_layer
from neutralocean.stability import stabilize_ST, count_unstable
from neutralocean.ppinterp import make_pp


def integral(c, P, S, T, lo, hi, dp):
    """trapezoidal integral of rs ds/dp + rt dt/dp from lo to hi, segment by segment"""
    f = PYEOS[c["eos"]][1]
    tot, err = 0.0, 0.0
    for i in range(len(P) - 1):
        a, b = max(lo, P[i]), min(hi, P[i + 1])
        if not a < b:
            continue
        # reference: composite Simpson on this (smooth) piece; the trapezoidal error bound
        n = 64
        x = np.linspace(a, b, 2 * n + 1)
        mid = 0.5 * (P[i] + P[i + 1])

        def g(q):
            # derivative of this segment's polynomial, also at its ends
            q_ = min(max(q, P[i] + 1e-9 * (P[i + 1] - P[i])), P[i + 1] - 1e-9 * (P[i + 1] - P[i]))
            rs, rt = f(at(c["interp"], q, P, S), at(c["interp"], q, P, T), q)
            return rs * ref_interp(c["interp"], q_, P, S, 1) + rt * ref_interp(c["interp"], q_, P, T, 1)

        y = np.array([g(q) for q in x])
        h = (b - a) / (2 * n)
        tot += h / 3 * (y[0] + y[-1] + 4 * y[1:-1:2].sum() + 2 * y[2:-1:2].sum())
        # the rule may start at either end of the interval and go on to the next site
        xs = np.linspace(P[i], P[i + 1], 65)
        ys = np.array([g(q) for q in xs])
        d2 = np.abs(np.diff(ys, 2)).max() / (xs[1] - xs[0]) ** 2
        for z in ([a] if a > P[i] else [P[i]]) + ([b] if b < P[i + 1] else []):
            st = min(dp, P[i + 1] - z)
            err += (P[i + 1] - z) * st**2 / 12 * d2 * 1.3
        err += 1e-10 * abs(ys).max() * (P[i + 1] - P[i])
    return tot, err


def num(x):
    return np.nan if x is None else x


def check(c):
    k = c["kind"]
    if k == "veronis":
        S, T, P = nan(c["S"]), nan(c["T"]), nan(c["P"])
        cp = [x.copy() for x in (S, T, P)]
        p1, p0, dp, b, pr = num(c["p1"]), num(c["p0"]), c["dp"], c["b"], c["pref"]
        kw = dict(p_ref=pr, b=b, dp=dp, interp=c["interp"], eos=EOS[c["eos"]])
        g = veronis(p1, S, T, P, p0=None if c["p0"] is None else p0, **kw)
        p0 = P[0] if c["p0"] is None else p0
        for x, y in zip((S, T, P), cp):
            if not same(x, y):
                return "the cast was modified"
        k0, K = vr(S, P)
        inside = K - k0 > 1 and all(P[0] <= q <= P[-1] and P[k0] <= q <= P[K - 1] for q in (p0, p1))
        if not inside:
            return None if g != g else f"Veronis density {g!r} for pressures {p0!r}, {p1!r} outside the cast's data"
        Pv, Sv, Tv = P[k0:K], S[k0:K], T[k0:K]
        d0 = PYEOS[c["eos"]][0](at(c["interp"], p0, Pv, Sv), at(c["interp"], p0, Pv, Tv), pr)
        lo, hi = min(p0, p1), max(p0, p1)
        I, err = integral(c, Pv, Sv, Tv, lo, hi, dp)
        w = d0 + b * (I if p1 >= p0 else -I)
        tol = abs(b) * err + 1e-9 * (1 if c["eos"] != "sv" else 1e-6)
        if not abs(g - w) <= tol:
            return f"Veronis density {g!r}, want {w!r} within {tol!r} (p0={p0!r}, p1={p1!r})"
        # antisymmetry of the integral part
        g2 = veronis(p0, S, T, P, p0=p1, **kw)
        d1 = PYEOS[c["eos"]][0](at(c["interp"], p1, Pv, Sv), at(c["interp"], p1, Pv, Tv), pr)
        if not abs((g - d0) + (g2 - d1)) <= 1e-9 * (1 if c["eos"] != "sv" else 1e-6) * (1 + abs(b)):
            return f"integral from {p0!r} to {p1!r} is {g - d0!r}, back {g2 - d1!r}"
        return None
    if k == "ml":
        S, T, P = nan(c["S"]), nan(c["T"]), nan(c["P"])
        shp = tuple(c["shape"])
        S, T, P = (x.reshape(shp + (-1,)) for x in (S, T, P))
        cp = [x.copy() for x in (S, T, P)]
        e = PYEOS[c["eos"]][0]
        bi = c["bottle"]
        kw = dict(pot_dens_diff=c["dd"], ref_p=c["ref"], bottle_index=bi, interp=c["interp"])
        g = np.asarray(mixed_layer(S, T, P, EOS[c["eos"]][0], **kw))
        for x, y in zip((S, T, P), cp):
            if not same(x, y):
                return "inputs modified"
        if g.shape != shp:
            return f"shape {g.shape}, want {shp}"
        for n in np.ndindex(shp):
            s, t, q = S[n], T[n], P[n]
            D = np.array([e(a, b, c["ref"]) for a, b in zip(s, t)])
            if c["eos"] == "sv":
                D = 1 / D
            D = D - D[bi]
            k0, K = vr(D, q)
            if K - k0 > 1 and not (np.diff(D[k0:K]) > 1e-9).all():
                continue  # density must increase downwards
            w = ref_interp(c["interp"], c["dd"], D, q, 0)
            if not ((w != w and g[n] != g[n]) or abs(w - g[n]) <= 1e-6 * (1 + abs(w))):
                if K - k0 > 1 and min(abs(c["dd"] - D[k0]), abs(c["dd"] - D[K - 1])) < 1e-9:
                    continue
                return f"mixed layer of cast {n} at {g[n]!r}, want {w!r}"
        return None
    if k in ("stab", "count"):
        S, T, P = nan(c["S"]), nan(c["T"]), nan(c["P"])
        e = PYEOS[c["eos"]][0]
        N = S.shape[0]
        vd = c["vd"]

        def grad(S, T, P, k0, K):
            return [(e(S[i + 1], T[i + 1], (P[i] + P[i + 1]) / 2) - e(S[i], T[i], (P[i] + P[i + 1]) / 2)) / (P[i + 1] - P[i]) for i in range(k0, K - 1)]

        if k == "count":
            with np.errstate(all="ignore"):
                w = 0
                for n in range(N):
                    for i in range(S.shape[1] - 1):
                        a = (P[n][i] + P[n][i + 1]) / 2
                        w += bool(e(S[n][i], T[n][i], a) >= e(S[n][i + 1], T[n][i + 1], a))
            args = (S, T, P)
            if vd == 0:
                args = tuple(np.moveaxis(x, -1, 0) for x in args)
            g = count_unstable(*args, eos=EOS[c["eos"]][0], vert_dim=vd)
            return None if g == w else f"{g} unstable pairs counted, there are {w}"
        args = [np.ascontiguousarray(np.moveaxis(x, -1, 0)) if vd == 0 else x.copy() for x in (S, T, P)]
        try:
            stabilize_ST(*args, EOS[c["eos"]][0], min_dLRPDdp=np.array(c["min"]) if isinstance(c["min"], list) else c["min"], verbose=False, vert_dim=vd)
        except RuntimeError as x:
            if "stabilization failed" in str(x):
                raise Skip()
            raise
        S1, T1, P1 = (np.moveaxis(x, 0, -1) if vd == 0 else x for x in args)
        if not same(P1, P):
            return "P was modified"
        for n in range(N):
            k0, K = vr(S[n])
            g0 = grad(S[n], T[n], P[n], k0, K)
            changed = not (same(S[n], S1[n]) and same(T[n], T1[n]))
            th = c["min"][k0:K - 1] if isinstance(c["min"], list) else [c["min"]] * max(0, K - 1 - k0)
            if changed and not any(x < y for x, y in zip(g0, th)):
                return f"cast {n} is stable but was changed"
            for X, X1 in ((S, S1), (T, T1)):
                if not same(np.r_[X[n][:k0], X[n][K:]], np.r_[X1[n][:k0], X1[n][K:]]):
                    return f"cast {n} was changed outside its valid data"
            g1 = grad(S1[n], T1[n], P[n], k0, K)
            if any(x < y - 1e-7 for x, y in zip(g1, th)):
                return f"cast {n} is still unstable: gradients {g1}, threshold {th}"
        return None


def gen(rng):
    k = rng.choice(["veronis", "veronis", "ml", "ml", "count", "stab"])
    interp = rng.choice(["linear", "pchip"])
    if k == "veronis":
        nk = rng.choice([2, 3, 4, 6])
        S, T, P = gen_cast(rng, nk)
        Pn = nan(P)
        if Pn[0] != Pn[0] or np.isnan(Pn).any():
            P = [10.0 * i + (P[0] or 0.0) for i in range(nk)]
            Pn = nan(P)
        c = rng.choice([Pn[0], Pn[-1], rng.choice(list(Pn)), rng.uniform(Pn[0], Pn[-1]), rng.uniform(Pn[0], Pn[-1]), rng.uniform(Pn[0], Pn[-1])])
        d = rng.choice([Pn[0], Pn[-1], rng.choice(list(Pn)), rng.uniform(Pn[0], Pn[-1]), rng.uniform(Pn[0], Pn[-1]), Pn[-1] + 5, Pn[0] - 5, None])
        L = Pn[-1] - Pn[0]
        return dict(kind=k, S=S, T=T, P=P, p1=float(c), p0=None if d is None else float(d), dp=rng.choice([1.0, L / 200, L / 7, L * 2]) if L < 500 else rng.choice([10.0, L / 200, L / 7, L * 2]),
                    b=rng.choice([1.0, 1.0, -2.5, 0.0]), pref=rng.choice([0.0, 1000.0]), interp=interp, eos=rng.choice(["nl", "sv"]))
    if k == "ml":
        shape = rng.choice([[1], [3], [2, 2]])
        N = int(np.prod(shape))
        nk = rng.choice([3, 4, 6])
        S, T, P = gen_casts(rng, N, nk, stable=True)
        return dict(kind=k, S=S, T=T, P=P, shape=shape, dd=rng.choice([0.03, 0.1, 0.5, 0.0]), ref=rng.choice([100.0, 0.0]), bottle=rng.choice([1, 1, 0, 2]), interp=interp, eos=rng.choice(["nl", "sv", "lin"]))
    nk, N = rng.choice([2, 3, 4]), rng.choice([1, 3])
    S, T, P = gen_casts(rng, N, nk, share=True)
    return dict(kind=k, S=S, T=T, P=P, eos="nl", min=rng.choice([1e-6, 1e-6, 1e-5, 0.0, [rng.choice([0.0, 1e-6, 1e-5, 1e-4]) for _ in range(nk - 1)], [rng.choice([0.0, 1e-4]) for _ in range(nk - 1)]]), vd=rng.choice([-1, -1, 0, 1]))


def edge():
    import random
    r = random.Random(19)
    return [gen(r) for _ in range(120)]
