"""C08, C09: isosurfaces"""
import numpy as np
from hutil import *
from hocean import *
import neutralocean.surface.isopycnal as iso
from neutralocean.surface import potential_surf, anomaly_surf
from neutralocean.surface._vertsolve import _make_vertsolve
from neutralocean.ppinterp import make_pp
import xarray as xr


def arrs(c):
    return nan(c["S"]), nan(c["T"]), nan(c["P"])


def fun(c, s, t, ref, d0, at_):
    e = PYEOS[c["eos"]][0]
    if c["ans"] == "potential":
        return lambda p: e(at_(p, s), at_(p, t), ref) - d0
    return lambda p: e(at_(p, s), at_(p, t), p) - e(ref[0], ref[1], p) - d0


def ftol_of(c):
    return 2e-13 if c["eos"] != "sv" else 2e-18 * 100


def verify(c, S, T, P, s, t, p, ref, d0, skip=()):
    for n in np.ndindex(S.shape[:-1]):
        if n in skip:
            continue
        Sn, Tn, Pn = S[n], T[n], P[n]
        f = fun(c, Sn, Tn, ref, d0, lambda q, Y: at(c["interp"], q, Pn, Y))
        r = cast_result(f, 1e-11 if c["eos"] != "sv" else 1e-17, c["interp"], Sn, Tn, Pn, s[n], t[n], p[n], c["tol"])
        if r:
            return f"cast {n}: {r}"


def call(c, S, T, P, **kw):
    fn = potential_surf if c["ans"] == "potential" else anomaly_surf
    return fn(S, T, P, eos=EOS[c["eos"]][0], interp=c["interp"], diags=False, output=False, TOL_P_SOLVER=c["tol"], **kw)


def check(c):
    S, T, P = arrs(c)
    shp = tuple(c["shape"])
    S, T, P = (x.reshape(shp + (x.shape[-1],)) for x in (S, T, P))
    ref = c["ref"] if c["ans"] == "potential" or c["ref"] is None else tuple(c["ref"])
    cp = [x.copy() for x in (S, T, P)]
    if c["kind"] == "iso":
        s, t, p, d = call(c, S, T, P, ref=ref, isoval=c["isoval"], **c.get("extra", {}))
        if d["ref"] != ref or d["isoval"] != c["isoval"]:
            return f"reported ref, isoval {d['ref']}, {d['isoval']} are not the given ones"
        r = verify(c, S, T, P, s, t, p, ref, c["isoval"])
        if r:
            return r
        # each cast by itself
        for n in list(np.ndindex(shp))[-3:]:
            q = tuple(slice(i, i + 1) for i in n)
            one = call(c, S[q], T[q], P[q], ref=ref, isoval=c["isoval"])[:3]
            for x, y, nm in zip((s, t, p), one, "stp"):
                if not same(x[n], y.reshape(-1)[0]):
                    return f"cast {n}: {nm} is {x[n]!r} among the other casts and {y.reshape(-1)[0]!r} by itself"
    elif c["kind"] == "pin":
        pc = tuple(c["pin_cast"])
        form = c["form"]
        n = tuple(pc)
        arg = list(pc) if form == "list" else (pc[0] if form == "int" else pc)
        Si = S
        Ti = T
        if form in ("dict", "dictrev"):
            names = ["x", "y", "w"][: len(shp)]
            co = {nm: np.arange(m) * 2.0 + 1 for nm, m in zip(names, shp)}
            Si = xr.DataArray(S, dims=names + ["z"], coords=co)
            Ti = xr.DataArray(T, dims=names + ["z"], coords=co)
            arg = {nm: float(co[nm][i]) for nm, i in zip(names, pc)}
            if form == "dictrev":
                arg = dict(reversed(list(arg.items())))
        kw = dict(pin_cast=arg, pin_p=c["pin_p"])
        if ref is not None:
            kw["ref"] = ref
        if c.get("isoval") is not None and ref is None:
            kw["isoval"] = c["isoval"]
        s, t, p, d = call(c, Si, Ti, P, **kw)
        s, t, p = (np.asarray(x) for x in (s, t, p))
        pp_ = c["pin_p"]
        s0, t0 = at(c["interp"], pp_, P[n], S[n]), at(c["interp"], pp_, P[n], T[n])
        e = PYEOS[c["eos"]][0]
        want = ref if ref is not None else (pp_ if c["ans"] == "potential" else (s0, t0))
        iv = e(s0, t0, want) if c["ans"] == "potential" else e(s0, t0, pp_) - e(want[0], want[1], pp_)
        if not close(d["ref"], want, 1e-9, 1e-9):
            return f"reported ref {d['ref']} want {want}"
        sc = 1e-9 if c["eos"] != "sv" else 1e-15
        if not abs(d["isoval"] - iv) <= sc:
            return f"reported isoval {d['isoval']!r} want {iv!r}"
        if p[n] != pp_:
            return f"surface at the pinning cast is at {p[n]!r}, asked {pp_!r}"
        r = st_ok(c["interp"], pp_, P[n], S[n], T[n], s[n], t[n])
        if r:
            return "pinning cast: " + r
        r = verify(c, S, T, P, s, t, p, d["ref"], d["isoval"], skip=[n])
        if r:
            return r
    elif c["kind"] == "reject":
        try:
            call(c, S, T, P, **c["kw"])
        except (TypeError, ValueError):
            return None
        return f"call with {c['kw']} does not determine a surface but was accepted"
    for x, y, nm in zip((S, T, P), cp, "STP"):
        if not same(x, y):
            return f"{nm} was modified"


def pick_iso(rng, c, S, T, P, ref):
    """an isovalue that some cast crosses (or not)"""
    e = PYEOS[c["eos"]][0]
    S, T, P = nan(S), nan(T), nan(P)
    n = rng.randrange(len(S))
    k, K = vr(S[n], P[n])
    if K - k < 2 or rng.random() < 0.05:
        s, t, p = 35.0, 10.0, 100.0
    else:
        i = rng.randrange(k, K - 1)
        q = P[n][i] if rng.random() < 0.25 else rng.uniform(P[n][i], P[n][i + 1])
        p = q
        s, t = at(c["interp"], q, P[n], S[n]), at(c["interp"], q, P[n], T[n])
    v = e(s, t, ref) if c["ans"] == "potential" else e(s, t, p) - e(ref[0], ref[1], p)
    return float(v)


def gen(rng):
    kind = rng.choice(["iso", "iso", "pin", "pin", "reject"] if rng.random() < 0.3 else ["iso", "pin"])
    shape = rng.choice([(1,), (3,), (2, 2), (1, 3), (3, 2)])
    N = int(np.prod(shape))
    nk = rng.choice([0, 1, 2, 3, 4, 6, 9]) if kind == "iso" else rng.choice([2, 3, 4, 6])
    S, T, P = gen_casts(rng, N, nk)
    c = dict(kind=kind, shape=list(shape), ans=rng.choice(["potential", "anomaly"]), eos=rng.choice(["nl", "nl", "nl", "sv", "lin"]) if False else rng.choice(["nl", "sv"]),
             interp=rng.choice(["linear", "pchip"]), tol=rng.choice([1e-4, 1e-4, 1e-8, 0.5, 10.0]), S=S, T=T, P=P)
    ref = float(rng.choice([0.0, 1000.0, rng.uniform(0, 2000)])) if c["ans"] == "potential" else [rng.uniform(34, 36), rng.uniform(0, 20)]
    if kind == "iso":
        c["ref"] = ref
        c["isoval"] = pick_iso(rng, c, S, T, P, ref)
        if rng.random() < 0.3:
            # pinning arguments are ignored
            c["extra"] = rng.choice([dict(pin_p=123.0), dict(pin_cast=[0] * len(shape)), dict(pin_p=50.0, pin_cast=[0] * len(shape))])
            if "pin_cast" in c["extra"]:
                c["extra"]["pin_cast"] = [rng.randrange(m) for m in shape]
    elif kind == "pin":
        c["ref"] = ref if rng.random() < 0.6 else None
        c["isoval"] = rng.choice([None, None, 1027.0])
        okc = [i for i in range(N) if (lambda k, K: K - k > 1)(*vr(nan(S[i]), nan(P[i])))]
        if not okc:
            return gen(rng)
        m = rng.choice(okc)
        k, K = vr(nan(S[m]), nan(P[m]))
        Pm = nan(P[m])
        i = rng.randrange(k, K - 1)
        c["pin_p"] = float(rng.choice([Pm[i], Pm[i + 1], rng.uniform(Pm[i], Pm[i + 1]), rng.uniform(Pm[i], Pm[i + 1])]))
        c["pin_cast"] = [int(x) for x in np.unravel_index(m, shape)]
        c["form"] = rng.choice(["tuple", "tuple", "list", "dict", "dictrev"] + (["int"] if len(shape) == 1 else []))
    else:
        c["ref"] = None
        z = [0] * len(shape)
        kws = [{}, dict(isoval=1027.0), dict(pin_p=100.0), dict(pin_cast=z), dict(ref=ref), dict(ref=ref, pin_p=100.0), dict(ref=ref, pin_cast=z), dict(isoval=1027.0, pin_p=10.0),
               dict(isoval=1027.0, pin_cast=z)]
        c["kw"] = rng.choice(kws)
    return c


def edge():
    import random
    out = []
    r = random.Random(7)
    for ans in ("potential", "anomaly"):
        for interp in ("linear", "pchip"):
            for _ in range(12):
                c = gen(r)
                c["ans"], c["interp"] = ans, interp
                if c["kind"] == "reject":
                    continue
                if c["ref"] is not None:
                    c["ref"] = 500.0 if ans == "potential" else [35.0, 10.0]
                if c["kind"] == "iso":
                    c["isoval"] = pick_iso(r, c, c["S"], c["T"], c["P"], c["ref"])
                out.append(c)
    return out
