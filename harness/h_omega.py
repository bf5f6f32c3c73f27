"""C13, C14: omega surfaces"""
import numpy as np
from hutil import *
from hocean import *
from h_bfs import csr, component, PPC
import neutralocean.surface.omega as om
from neutralocean.surface import omega_surf
from neutralocean.surface._vertsolve import _make_vertsolve, _vertsolve_omega
from neutralocean.grid.rectilinear import build_grid


def eps(c, s, t, p, a, b):
    f = PYEOS[c["eos"]][1]
    rs, rt = f(0.5 * (s[a] + s[b]), 0.5 * (t[a] + t[b]), 0.5 * (p[a] + p[b]))
    return rs * (s[b] - s[a]) + rt * (t[b] - t[a])


def check_update(c, S, T, P, s0, t0, p0, phi, s, t, p, pin=None, tol=None):
    """one vertical update"""
    e = PYEOS[c["eos"]][0]
    tol = c["tol"] if tol is None else tol
    for n in range(len(p0)):
        if n == pin:
            continue
        if phi[n] == 0.0:
            if not same([s[n], t[n], p[n]], [s0[n], t0[n], p0[n]]):
                return f"cast {n} has zero correction but moved from {p0[n]!r} to {p[n]!r}"
            continue
        if not np.isfinite(phi[n]) or p0[n] != p0[n]:
            if not all(x != x for x in (s[n], t[n], p[n])):
                return f"cast {n} without correction is {(s[n], t[n], p[n])}"
            continue
        target = e(s0[n], t0[n], p0[n]) + phi[n]
        f = lambda q: e(at(c["interp"], q, P[n], S[n]), at(c["interp"], q, P[n], T[n]), p0[n]) - target
        r = cast_result(f, 1e-11 if c["eos"] != "sv" else 1e-17, c["interp"], S[n], T[n], P[n], s[n], t[n], p[n], tol)
        if r:
            return f"cast {n}, correction {phi[n]!r}: {r}"


def check(c):
    k = c["kind"]
    if k == "update":
        S, T, P = nan(c["S"]), nan(c["T"]), nan(c["P"])
        s, t, p, phi = (nan(c[x]) for x in ("s", "t", "p", "phi"))
        if c["two"]:
            S, T, P = (x.reshape((1,) + x.shape) for x in (S, T, P))
            s, t, p, phi = (x.reshape((1,) + x.shape) for x in (s, t, p, phi))
        s0, t0, p0 = s.copy(), t.copy(), p.copy()
        cp = [x.copy() for x in (S, T, P, phi)]
        _make_vertsolve(EOS[c["eos"]][0], PPC[c["interp"]], "omega")(s, t, p, S, T, P, phi, c["tol"])
        for x, y, nm in zip((S, T, P, phi), cp, ("S", "T", "P", "correction")):
            if not same(x, y):
                return f"{nm} was modified"
        r = lambda x: x.reshape(-1)
        g = lambda x: x.reshape((-1, x.shape[-1]))
        return check_update(c, g(S), g(T), g(P), r(s0), r(t0), r(p0), r(phi), r(s), r(t), r(p))
    if k == "solve":
        N = c["N"]
        s, t, p = nan(c["s"]), nan(c["t"]), nan(c["p"])
        a, b = np.array(c["a"], dtype=np.int64), np.array(c["b"], dtype=np.int64)
        adj, ip, ix = csr(N, list(zip(c["a"], c["b"])))
        ref = c["ref"]
        comp = component(adj, ref, np.isfinite(p))
        m = np.array(sorted(comp), dtype=np.int64)
        dr = np.array(c["dr"]) if isinstance(c["dr"], list) else c["dr"]
        f = EOS[c["eos"]][1]
        cp = [x.copy() for x in (s, t, p)]
        # oracle: weighted least squares
        E = [(i, x, y) for i, (x, y) in enumerate(zip(a, b)) if x in comp and y in comp]
        pos = {x: i for i, x in enumerate(m)}
        w = np.broadcast_to(np.asarray(dr, float), a.shape)
        A, rhs = np.zeros((len(E) + 1, len(m))), np.zeros(len(E) + 1)
        for r_, (i, x, y) in enumerate(E):
            A[r_, pos[y]] += np.sqrt(w[i])
            A[r_, pos[x]] -= np.sqrt(w[i])
            rhs[r_] = -np.sqrt(w[i]) * eps(c, s, t, p, x, y)
        A[-1, pos[ref]] = 1.0
        sol = np.linalg.lstsq(A, rhs, rcond=None)[0]
        want = np.full(N, np.nan)
        want[m] = sol - sol[pos[ref]]
        scale = np.nanmax(np.abs(want)) + (1e-3 if c["eos"] != "sv" else 1e-9)
        out = {}
        for nm, fn, arg in (("poisson", om._omega_matsolve_poisson, dr), ("gradient", om._omega_matsolve_gradient, np.sqrt(dr))):
            g = fn(s.copy(), t.copy(), p.copy(), (a, b), arg, m, ref, f)
            if g.shape != p.shape or not same(np.isnan(g), np.isnan(want)):
                return f"{nm}: correction is NaN at {np.flatnonzero(np.isnan(g)).tolist()}, region {m.tolist()}"
            if abs(g[ref]) > 1e-12 * scale:
                return f"{nm}: correction {g[ref]!r} at the pinning cast"
            rt = 1e-7 if nm == "poisson" else 2e-3
            # (gradient: the iterative solver's default tolerance)
            if not (np.abs(g - want)[m] <= rt * scale).all():
                return f"{nm}: correction {g[m].tolist()}, least squares {want[m].tolist()} on {m.tolist()}"
        return None
    # whole algorithm, watched iteration by iteration
    dims = tuple(c["dims"])
    N = dims[0] * dims[1]
    S, T, P = nan(c["S"]), nan(c["T"]), nan(c["P"])
    nk = S.shape[-1]
    grid = build_grid(dims, tuple(bool(x) for x in c["per"]), *c["dx"])
    a, b = grid["edges"]
    adj, ip, ix = csr(N, list(zip(a.tolist(), b.tolist())))
    pin = tuple(c["pin"])
    pinl = int(np.ravel_multi_index(pin, dims))
    p_init = c["p_init"]
    if isinstance(p_init, list):
        p_init = nan(p_init).reshape(dims)
    pin_p = p_init[pin] if isinstance(p_init, np.ndarray) else p_init
    log = []
    mk = om._make_vertsolve

    def spy(*args):
        fn = mk(*args)

        def g(s, t, p, S_, T_, P_, phi, tol):
            b4 = [x.copy() for x in (s, t, p)]
            fn(s, t, p, S_, T_, P_, phi, tol)
            log.append((b4, phi.copy(), [x.copy() for x in (s, t, p)]))

        return g

    args = [x.reshape(dims + (nk,)) for x in (S, T, P)]
    cp = [x.copy() for x in args] + [np.array(p_init, copy=True)]
    kw = dict(eos=EOS[c["eos"]], interp=c["interp"], output=False, TOL_P_SOLVER=c["tol"], ITER_MAX=c["iters"], TOL_LRPD_MAV=0.0, OMEGA_FORMULATION=c["form"], diags=c["diags"])
    kw["ITER_START_WETTING"] = c["wet"]
    pml = None
    if c["pml"] is not None:
        pml = np.array([-np.inf if x is None else x for x in c["pml"]])
        kw["p_ml"] = pml.reshape(dims)
    om._make_vertsolve = spy
    try:
        try:
            s, t, p, d = omega_surf(*args, grid, pin, p_init, **kw)
        except RuntimeError as e:
            k0, K0 = vr(S[pinl], P[pinl])
            if "NaN at the reference cast" in str(e) and not (K0 - k0 > 1 and P[pinl][k0] <= pin_p <= P[pinl][K0 - 1]):
                return None
            raise
        except Exception as e:
            if pml is not None and pin_p is not None and not pin_p >= pml[pinl]:
                raise Skip()
            raise
    finally:
        om._make_vertsolve = mk
    for x, y, nm in zip(args + [np.array(p_init)], cp, ("S", "T", "P", "p_init")):
        if not same(x, y):
            return f"{nm} was modified"
    if p.shape != dims:
        return f"surface of shape {p.shape}"
    if p[pin] != pin_p:
        return f"surface at the pinning cast is at {p[pin]!r}, asked {pin_p!r}"
    r = st_ok(c["interp"], pin_p, P[pinl], S[pinl], T[pinl], s[pin], t[pin])
    if r:
        return "pinning cast: " + r
    if not (same(np.isnan(s), np.isnan(p)) and same(np.isnan(t), np.isnan(p))) and c["iters"]:
        return "s, t, p are not NaN on the same casts"
    if len(log) != c["iters"]:
        return f"{len(log)} iterations, asked {c['iters']}"
    prev = None
    for it, (b4, phi, af) in enumerate(log):
        comp = component(adj, pinl, np.isfinite(b4[2]))
        got = set(np.flatnonzero(np.isfinite(phi)).tolist())
        if got != comp:
            return f"iteration {it}: corrected casts {sorted(got)} are not the region of the pinning cast {sorted(comp)}"
        if phi[pinl] != 0.0:
            return f"iteration {it}: pinning cast corrected by {phi[pinl]!r}"
        r = check_update(c, S, T, P, *b4, phi, *af)
        if r:
            return f"iteration {it}: {r}"
        if prev is not None:
            for n in range(N):
                if np.isfinite(prev[2][n]) and np.isfinite(b4[2][n]) and prev[2][n] != b4[2][n]:
                    return f"iteration {it}: cast {n} changed outside the update"
                if pml is not None and b4[2][n] < pml[n] and not it == 0:
                    return f"iteration {it}: cast {n} kept above the mixed layer"
        prev = af
    if log:
        w = log[-1][2][2].copy()
        w[pinl] = pin_p
        if not same(p.reshape(-1), w):
            return "the surface returned is not that of the last iteration"
    for n in range(N):
        x = p.reshape(-1)[n]
        if x == x and n != pinl:
            r = st_ok(c["interp"], x, P[n], S[n], T[n], s.reshape(-1)[n], t.reshape(-1)[n])
            if r:
                return f"cast {n}: {r}"
    if c["diags"]:
        for kk, v in d.items():
            if len(v) != c["iters"] + 1:
                return f"diagnostic {kk} has {len(v)} entries for {c['iters']} iterations"
        if d["n_wet"][-1] != np.isfinite(p).sum():
            return f"n_wet[-1] = {d['n_wet'][-1]}, {np.isfinite(p).sum()} casts are wet"
        for it, (b4, phi, af) in enumerate(log):
            if not close(d["ϕ_MAV"][it + 1], np.nanmean(abs(phi)), 1e-9, 1e-18):
                return f"ϕ_MAV[{it + 1}]"
            dp = af[2] - b4[2]
            dp[pinl] = pin_p - b4[2][pinl]
            if not close(d["Δp_RMS"][it + 1], np.sqrt(np.nanmean(dp**2)), 1e-9, 1e-12):
                return f"Δp_RMS[{it + 1}] = {d['Δp_RMS'][it + 1]}"
        from neutralocean.ntp import ntp_epsilon_errors_norms
        r = ntp_epsilon_errors_norms(s, t, p, grid, EOS[c["eos"]][1])
        if not close([d["e_RMS"][-1], d["e_MAV"][-1]], r, 1e-9, 1e-18):
            return "final e_RMS, e_MAV are not those of the surface returned"


def similar(rng, N, nk, bad=0.15):
    b = gen_cast(rng, nk, True)
    while vr(nan(b[0]), nan(b[2]))[1] - vr(nan(b[0]), nan(b[2]))[0] < 2:
        b = gen_cast(rng, nk, True)
    S, T, P = [], [], []
    for _ in range(N):
        if rng.random() > bad:
            S.append([None if y is None else y + rng.gauss(0, 0.02) for y in b[0]])
            T.append([None if y is None else y + rng.gauss(0, 0.3) for y in b[1]])
            P.append(list(b[2]))
        else:
            x = gen_cast(rng, nk)
            S.append(x[0]), T.append(x[1]), P.append(x[2])
    return S, T, P


def gen(rng):
    k = rng.choice(["update", "update", "solve", "solve", "omega"])
    interp = rng.choice(["linear", "pchip"])
    if k == "update":
        N, nk = rng.choice([1, 3, 5]), rng.choice([1, 2, 3, 5])
        S, T, P = gen_casts(rng, N, nk)
        s, t, p, phi = [], [], [], []
        for n in range(N):
            kk, K = vr(nan(S[n]), nan(P[n]))
            if K - kk > 1 and rng.random() < 0.9:
                Pn = nan(P[n])
                x = rng.choice([Pn[kk], Pn[K - 1], rng.uniform(Pn[kk], Pn[K - 1]), rng.uniform(Pn[kk], Pn[K - 1])])
                p.append(float(x)), s.append(float(at(interp, x, Pn, nan(S[n])))), t.append(float(at(interp, x, Pn, nan(T[n]))))
            elif rng.random() < 0.5:
                p.append(100.0), s.append(35.0), t.append(10.0)
            else:
                p.append(None), s.append(None), t.append(None)
            phi.append(rng.choice([0.0, None, rng.gauss(0, 0.05), rng.gauss(0, 0.5), rng.gauss(0, 1e-4)]))
        return dict(kind=k, two=rng.random() < 0.3, eos="nl", interp=interp, tol=rng.choice([1e-4, 1e-8, 1.0]), S=S, T=T, P=P, s=s, t=t, p=p, phi=phi)
    if k == "solve":
        N = rng.choice([1, 2, 3, 5, 8])
        E = rng.choice([1, 3, 8, 16])
        a, b = [], []
        for _ in range(E):
            x, y = rng.randrange(N), rng.randrange(N)
            if x != y:
                a.append(x), b.append(y)
        for i in range(N - 1):
            if rng.random() < 0.7:
                a.append(i), b.append(i + 1)
        if not a:
            return gen(rng)
        bad = [rng.random() < 0.2 for _ in range(N)]
        ref = rng.randrange(N)
        bad[ref] = False
        f = lambda lo, hi: [None if z else rng.uniform(lo, hi) for z in bad]
        return dict(kind=k, N=N, a=a, b=b, ref=ref, s=f(33, 36), t=f(0, 25), p=f(0, 3000), eos="nl",
                    dr=rng.choice([1.0, rng.uniform(0.3, 4), [rng.uniform(0.3, 3) for _ in a], [rng.uniform(0.3, 3) for _ in a]]))
    dims = [rng.choice([1, 2, 3]), rng.choice([2, 3, 4])]
    N = dims[0] * dims[1]
    nk = rng.choice([2, 3, 5])
    S, T, P = similar(rng, N, nk)
    okc = [i for i in range(N) if (lambda q: q[1] - q[0] > 1)(vr(nan(S[i]), nan(P[i])))]
    if not okc:
        return gen(rng)
    m = rng.choice(okc)
    kk, K = vr(nan(S[m]), nan(P[m]))
    Pm = nan(P[m])
    x = rng.uniform(0.85 * Pm[kk] + 0.15 * Pm[K - 1], 0.15 * Pm[kk] + 0.85 * Pm[K - 1])
    p_init = float(x)
    if rng.random() < 0.5:
        p_init = [float(x) if rng.random() < 0.9 or n == m else rng.choice([None, rng.uniform(0, 500)]) for n in range(N)]
    pml = None
    if rng.random() < 0.3:
        pml = [None if n == m or rng.random() < 0.4 else rng.uniform(0, 1.1) * x for n in range(N)]
    return dict(kind="omega", dims=dims, per=[rng.randint(0, 1), rng.randint(0, 1)], dx=[rng.choice([1.0, rng.uniform(1, 9)]) for _ in range(4)], S=S, T=T, P=P, pin=[int(v) for v in np.unravel_index(m, dims)],
                p_init=p_init, eos="nl", interp=interp, tol=rng.choice([1e-4, 1e-8]), iters=rng.choice([0, 1, 2, 3]), wet=rng.choice([1, 1, 2, 100]), form=rng.choice(["poisson", "poisson", "gradient"]),
                diags=rng.random() < 0.7, pml=pml)


def edge():
    import random
    r = random.Random(17)
    return [gen(r) for _ in range(60)]
