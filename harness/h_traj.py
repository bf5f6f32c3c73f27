"""C10: neutral connections and trajectories"""
import numpy as np
from hutil import *
from hocean import *
from neutralocean.traj import ntp_bottle_to_cast, neutral_trajectory


def bottle(c, sB, tB, pB, S, T, P, s, t, p):
    e = PYEOS[c["eos"]][0]
    if any(x != x for x in (sB, tB, pB)):
        if not all(x != x for x in (s, t, p)):
            return f"connection from a NaN bottle is {(s, t, p)}"
        return None

    def f(q):
        a = 0.5 * (pB + q)
        return e(sB, tB, a) - e(at(c["interp"], q, P, S), at(c["interp"], q, P, T), a)

    return cast_result(f, 1e-11 if c["eos"] != "sv" else 1e-17, c["interp"], S, T, P, s, t, p, c["tol"])


def num(x):
    return np.nan if x is None else x


def check(c):
    S, T, P = nan(c["S"]), nan(c["T"]), nan(c["P"])
    cp = [x.copy() for x in (S, T, P)]
    kw = dict(tol_p=c["tol"], interp=c["interp"], eos=EOS[c["eos"]][0])
    r = None
    if c["kind"] == "bottle":
        sB, tB, pB = (num(x) for x in c["B"])
        s, t, p = ntp_bottle_to_cast(sB, tB, pB, S, T, P, **kw)
        r = bottle(c, sB, tB, pB, S, T, P, s, t, p)
    else:
        p0 = num(c["p0"])
        s, t, p = neutral_trajectory(S, T, P, p0, **kw)
        nc = S.shape[0]
        if not (s.shape == t.shape == p.shape == (nc,)):
            return f"shapes {s.shape}"
        if nc and not (p[0] == p0 or (p0 != p0 and p[0] != p[0])):
            return f"trajectory starts at {p[0]!r}, asked {p0!r}"
        if nc:
            k, K = ends(S[0], T[0], P[0])
            if K - k > 1 and p0 == p0 and P[0][k] <= p0 <= P[0][K - 1]:
                r = st_ok(c["interp"], p0, P[0], S[0], T[0], s[0], t[0])
            elif not (s[0] != s[0] and t[0] != t[0]):
                r = f"first cast has no data at {p0!r} but (s,t) = {(s[0], t[0])}"
            if r:
                return "first cast: " + r
        dead = nc > 0 and p[0] != p[0]
        for i in range(1, nc):
            if dead:
                if not all(x != x for x in (s[i], t[i], p[i])):
                    return f"point {i} after the failure is {(s[i], t[i], p[i])}"
                continue
            r = bottle(c, s[i - 1], t[i - 1], p[i - 1], S[i], T[i], P[i], s[i], t[i], p[i])
            if r:
                return f"cast {i}: {r}"
            dead = p[i] != p[i]
        # each step is the bottle-to-cast connection
        for i in range(1, nc):
            if p[i - 1] == p[i - 1]:
                w = ntp_bottle_to_cast(s[i - 1], t[i - 1], p[i - 1], S[i], T[i], P[i], **kw)
                if not same(np.array(w, float), np.array([s[i], t[i], p[i]])):
                    return f"step {i} {(s[i], t[i], p[i])} is not the neutral connection {w}"
    if r:
        return r
    for x, y, nm in zip((S, T, P), cp, "STP"):
        if not same(x, y):
            return f"{nm} was modified"


def gen(rng):
    eos, interp, tol = rng.choice(["nl", "sv"]), rng.choice(["linear", "pchip"]), rng.choice([1e-4, 1e-4, 1e-8, 1.0])
    if rng.random() < 0.6:
        nk = rng.choice([0, 1, 2, 3, 4, 6, 9])
        S, T, P = gen_cast(rng, nk)
        k, K = vr(nan(S), nan(P))
        if K - k > 1 and rng.random() < 0.8:
            Pn = nan(P)
            q = rng.uniform(Pn[k], Pn[K - 1])
            sB, tB, pB = at(interp, q, Pn, nan(S)), at(interp, q, Pn, nan(T)), max(0.0, q + rng.choice([0.0, 1.0, rng.gauss(0, 100)]))
            sB += rng.choice([0, 0, 1e-3, rng.gauss(0, 0.1)])
        else:
            sB, tB, pB = rng.uniform(33, 37), rng.uniform(-1, 25), rng.uniform(0, 2000)
        B = [float(sB), float(tB), float(pB)]
        if rng.random() < 0.03:
            B[rng.randrange(3)] = None
        return dict(kind="bottle", eos=eos, interp=interp, tol=tol, B=B, S=S, T=T, P=P)
    nk, nc = rng.choice([1, 2, 3, 4, 6]), rng.choice([1, 2, 3, 5, 6])
    S, T, P = gen_casts(rng, nc, nk, stable=rng.random() < 0.8)
    if rng.random() < 0.7:
        # similar casts, so that the trajectory goes on
        b = gen_cast(rng, nk, True)
        S = [[None if y is None else y + rng.gauss(0, 0.02) for y in b[0]] for _ in range(nc)]
        T = [[None if y is None else y + rng.gauss(0, 0.2) for y in b[1]] for _ in range(nc)]
        P = [list(b[2]) for _ in range(nc)]
    k, K = vr(nan(S[0]), nan(P[0]))
    if K - k > 1 and rng.random() < 0.9:
        Pn = nan(P[0])
        p0 = float(rng.choice([Pn[k], Pn[K - 1], rng.uniform(Pn[k], Pn[K - 1]), rng.uniform(Pn[k], Pn[K - 1])]))
    else:
        p0 = rng.choice([None, -5.0, 1e5, 10.0])
    return dict(kind="traj", eos=eos, interp=interp, tol=tol, p0=p0, S=S, T=T, P=P)


def edge():
    import random
    r = random.Random(5)
    out = [gen(r) for _ in range(60)]
    for z in (0, 1, 2):
        out.append(dict(kind="traj", eos="nl", interp="linear", tol=1e-4, p0=10.0, S=[[35.0] * z] * 2, T=[[10.0 - i for i in range(z)]] * 2, P=[[10.0 * i for i in range(z)]] * 2))
    return out
