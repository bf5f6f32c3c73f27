"""Synthetic casts and equations of state shared by the harnesses, and an
independent (plain Python) reading of what a cast is between its data."""
import numpy as np, numba as nb, random
from hutil import *
from h_interp import vr, ref_interp


@nb.njit
def e_lin(s, t, p):
    return 1000.0 + 0.78 * s - 0.16 * t + 0.0045 * p


@nb.njit
def e_lin_st(s, t, p):
    return 0.78 + 0.0 * s, -0.16 + 0.0 * s


@nb.njit
def e_nl(s, t, p):
    return 1000.0 + 0.78 * s - 0.07 * t - 0.0055 * t * t - 2.5e-5 * t * p + 0.0045 * p - 2.0e-3 * s * t


@nb.njit
def e_nl_st(s, t, p):
    return 0.78 - 2.0e-3 * t + 0.0 * s, -0.07 - 0.011 * t - 2.5e-5 * p - 2.0e-3 * s


@nb.njit
def e_sv(s, t, p):
    return 1.0 / (1000.0 + 0.78 * s - 0.07 * t - 0.0055 * t * t - 2.5e-5 * t * p + 0.0045 * p)


@nb.njit
def e_sv_st(s, t, p):
    r = 1000.0 + 0.78 * s - 0.07 * t - 0.0055 * t * t - 2.5e-5 * t * p + 0.0045 * p
    return -0.78 / (r * r), (0.07 + 0.011 * t + 2.5e-5 * p) / (r * r)


EOS = {"lin": (e_lin, e_lin_st), "nl": (e_nl, e_nl_st), "sv": (e_sv, e_sv_st)}
# pure python versions, for oracles
PYEOS = {k: (v[0].py_func, v[1].py_func) for k, v in EOS.items()}


def gen_cast(rng, nk, stable=None, shared_P=None):
    """-> S, T, P lists (None: NaN)"""
    if stable is None:
        stable = rng.random() < 0.7
    if shared_P is not None:
        P = list(shared_P)
    else:
        P, q = [], rng.choice([0.0, 0.0, 5.0, rng.uniform(0, 50)])
        for _ in range(nk):
            P.append(q)
            q += rng.choice([1.0, 10.0, 100.0, rng.uniform(0.5, 400)])
    t0, s0 = rng.uniform(5, 28), rng.uniform(33, 36)
    if stable:
        T = sorted((rng.uniform(-1, t0) for _ in range(nk)), reverse=True)
        S = sorted(s0 + rng.uniform(0, 1) for _ in range(nk))
        if rng.random() < 0.3:
            S = [s0] * nk
    else:
        T = [rng.uniform(-1, t0) for _ in range(nk)]
        S = [s0 + rng.uniform(-1, 1) for _ in range(nk)]
    pat = rng.random()
    bad = set()
    if nk:
        if pat < 0.45:
            pass
        elif pat < 0.7:
            bad = set(range(rng.randint(0, nk), nk))
        elif pat < 0.78:
            bad = set(range(0, rng.randint(0, nk)))
        elif pat < 0.86:
            bad = {rng.randrange(nk)}
        elif pat < 0.94:
            bad = {i for i in range(nk) if rng.random() < 0.3}
        else:
            bad = set(range(nk))
    S = [None if i in bad else v for i, v in enumerate(S)]
    T = [None if i in bad else v for i, v in enumerate(T)]
    if rng.random() < 0.15 and shared_P is None:
        # pressure may be missing too, at the bottom
        k = rng.randint(0, nk)
        P = [None if i >= k else v for i, v in enumerate(P)]
    return S, T, P


def gen_casts(rng, n, nk, stable=None, share=None):
    sp = None
    if share is None:
        share = rng.random() < 0.3
    if share:
        q, sp = 0.0, []
        for _ in range(nk):
            sp.append(q)
            q += rng.uniform(1, 300)
    C = [gen_cast(rng, nk, stable, sp) for _ in range(n)]
    return [c[0] for c in C], [c[1] for c in C], [c[2] for c in C]


def at(interp, p, P, S):
    return ref_interp(interp, p, P, S, 0)


def ends(S, T, P):
    return vr(S, P)


def samples(lo, hi, P, extra=()):
    pts = [lo, hi] + [x for x in list(P) + list(extra) if lo <= x <= hi]
    pts = sorted(set(pts))
    out = []
    for a, b in zip(pts, pts[1:]):
        out += list(np.linspace(a, b, 9)[:-1])
    return out + [pts[-1]]


def crossing_near(f, p, lo, hi, w, P, ftol):
    """is there a zero or sign change of the continuous f within w of p in [lo,hi]?
    (ftol: rounding of f)"""
    a, b = max(lo, p - w), min(hi, p + w)
    v = [f(x) for x in samples(a, b, P, [p])]
    v = [x for x in v if x == x]
    if not v:
        return False
    return min(v) <= ftol and max(v) >= -ftol


def st_ok(interp, p, P, S, T, s, t):
    ws, wt = at(interp, p, P, S), at(interp, p, P, T)
    if not (abs(s - ws) <= 1e-9 * (1 + abs(ws))):
        return f"salinity {s!r} at p={p!r}, interpolated {ws!r}"
    if not (abs(t - wt) <= 1e-9 * (1 + abs(wt))):
        return f"temperature {t!r} at p={p!r}, interpolated {wt!r}"


def cast_result(f, ftol, interp, S, T, P, s, t, p, tol):
    """the isosurface property on one cast"""
    nn = [x != x for x in (s, t, p)]
    if any(nn) and not all(nn):
        return f"some but not all of (s,t,p) are NaN: {(s, t, p)}"
    k, K = ends(S, T, P)
    if K - k <= 1:
        return None if all(nn) else f"cast with {max(K - k, 0)} valid data has a surface at {p!r}"
    lo, hi = P[k], P[K - 1]
    if all(nn):
        fa, fb = f(lo), f(hi)
        if (fa > ftol and fb < -ftol) or (fa < -ftol and fb > ftol):
            return f"NaN though the ends of the cast are on either side ({fa!r}, {fb!r})"
        return None
    if not lo <= p <= hi:
        return f"p={p!r} outside the valid range [{lo!r},{hi!r}]"
    w = 2 * tol * (1 + 1e-6) + 1e-11 * abs(p) + 1e-13
    if not crossing_near(f, p, lo, hi, w, P[k:K], ftol):
        return f"p={p!r} is not within tolerance {tol} of a crossing: f={f(p)!r}"
    return st_ok(interp, p, P, S, T, s, t)
