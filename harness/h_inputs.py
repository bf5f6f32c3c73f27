"""C20: input conventions, labelled arrays, inputs unmodified"""
import numpy as np, random
from hutil import *
from hocean import *
import xarray as xr
from neutralocean.surface import potential_surf, anomaly_surf, omega_surf
from neutralocean.traj import neutral_trajectory
from neutralocean.mixed_layer import mixed_layer
from neutralocean.grid.rectilinear import build_grid

DN = ["lat", "lon", "x3"]


class Modified(Exception):
    pass


def run(c, S, T, P, vd, pin=None):
    e = EOS[c["eos"]]
    kw = {} if vd is None else dict(vert_dim=vd)
    f = c["fn"]
    if f == "traj":
        return neutral_trajectory(S, T, P, c["p0"], interp=c["interp"], eos=e[0], tol_p=1e-6, **kw), None
    if f == "ml":
        r = mixed_layer(S, T, P, eos=e[0], interp=c["interp"], pot_dens_diff=c["dd"], ref_p=c["p0"], bottle_index=0, **kw)
        return (r,), None
    if f == "omega":
        dims = c["shape"]
        g = build_grid(tuple(dims), tuple(bool(b) for b in c["per"]))
        extra, pi = {}, c["p0"]
        hold = []
        if c.get("parr"):
            pi = np.full(tuple(dims), c["p0"])
            hold.append((pi, pi.copy(), "p_init"))
        if c.get("ml"):
            extra["p_ml"] = np.full(tuple(dims), c["p0"] - 1e4)
            extra["p_ml"].reshape(-1)[1:] = c["p0"] - 1.0
            hold.append((extra["p_ml"], extra["p_ml"].copy(), "p_ml"))
        for q in ("dist", "distperp"):
            if q in g:
                hold.append((g[q], np.array(g[q]), "grid " + q))
        hold += [(x, np.array(x), "grid edges") for x in g["edges"]]
        kw.update(extra)
        s, t, p, d = omega_surf(S, T, P, g, tuple(c["pin"]), pi, eos=e, interp=c["interp"], diags=c["diags"],
                                output=False, ITER_MAX=2, TOL_P_SOLVER=1e-6, **kw)
        for x, y, nm in hold:
            if not same(x, y):
                raise Modified(nm)
        return (s, t, p), d
    k2 = dict(eos=e if c["diags"] else e[0], interp=c["interp"], diags=c["diags"], output=False, TOL_P_SOLVER=1e-6)
    if c["diags"]:
        k2["grid"] = build_grid(tuple(c["shape"]), tuple(bool(b) for b in c["per"]))
    if c["mode"] == "pin":
        k2.update(pin_cast=tuple(c["pin"]), pin_p=c["p0"])
    elif f == "potential":
        k2.update(ref=c["p0"], isoval=c["iso"])
    else:
        k2.update(ref=(35.0, 10.0), isoval=c["iso"])
    s, t, p, d = (potential_surf if f == "potential" else anomaly_surf)(S, T, P, **k2, **kw)
    return (s, t, p), d


def layout(a, how):
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.full(tuple(2 * n for n in a.shape), -777.0)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        b[sl] = a
        return b[sl]
    if how == "rev":
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if how == "f4":
        return a.astype(np.float32)
    return np.array(a, order="C")


def check(c):
    S, T, P = nan(c["S"]), nan(c["T"]), nan(c["P"])
    shp = tuple(c["shape"])
    S, T, P = (x.reshape(shp + (x.shape[-1],)).astype(np.float32).astype(float) for x in (S, T, P))
    nd = S.ndim
    try:
        ref, dref = run(c, np.array(S), np.array(T), np.array(P), None)
    except RuntimeError:
        raise Skip
    except Modified as x:
        return f"the caller's {x} was modified"
    for v in c["variants"]:
        vd, lay = v["vd"], v["lay"]
        tr = lambda x: layout(np.moveaxis(x, -1, vd), lay)
        A, B = tr(S), tr(T)
        if v["p1"]:
            C_ = layout(P.reshape(-1, P.shape[-1])[0], lay)
        else:
            C_ = tr(P)
        if v["pint"] and not np.isnan(C_).any() and (C_ == np.round(C_)).all():
            C_ = C_.astype(int)
        args = [A, B, C_]
        arg_vd = v["arg"]  # "pos" | "neg" | "name" | "default"
        vdim = {"pos": vd, "neg": vd - nd, "name": "depth"}.get(arg_vd)
        if v["xr"]:
            lat = [d for d in DN[: nd - 1]]
            dims = lat[:vd] + ["depth"] + lat[vd:]
            co = {d: 10.0 + np.arange(n) * 1.5 for d, n in zip(lat, shp)}
            if v["vcoord"]:
                co["depth"] = np.arange(S.shape[-1]) * 7.0
            if nd > 1 and v["aux"]:
                co["area"] = ((lat[0],), np.arange(shp[0]) + 0.25)
            mk = lambda x, nm: xr.DataArray(x, dims=dims, coords=co, name=nm, attrs={"units": nm + "u"})
            args[0], args[1] = mk(A, "salt"), mk(B, "theta")
            if v["xrp"]:
                if v["p1"]:
                    args[2] = xr.DataArray(C_, dims=["depth"], name="pres", attrs={"units": "dbar"})
                else:
                    args[2] = mk(C_, "pres")
        elif arg_vd == "name":
            vdim = vd
        if arg_vd == "default" and vd != nd - 1:
            vdim = vd
        keep = [np.array(x) for x in args]
        lab = [x.copy(deep=True) if isinstance(x, xr.DataArray) else None for x in args]
        out, d = run(c, *args, vdim)
        for nm, x, k in zip("STP", args, keep):
            if not same(np.asarray(x), k):
                return f"input {nm} was modified ({v})"
        for x, l in zip(args, lab):
            if l is not None and not x.identical(l):
                return f"labels of an input were modified ({v})"
        for i, (o, r) in enumerate(zip(out, ref)):
            if not close(np.asarray(o), np.asarray(r), 1e-13, 1e-13):
                return f"output {i} of {c['fn']} differs for {v}: {np.asarray(o).ravel()[:6]} vs {np.asarray(r).ravel()[:6]}"
        if d is not None and dref is not None:
            for key in ("e_RMS", "e_MAV", "isoval", "n_wet"):
                if key in dref and not close(d[key], dref[key], 1e-10, 1e-15):
                    return f"diagnostic {key} differs for {v}"
        if v["xr"] and c["fn"] in ("potential", "anomaly", "omega"):
            names = ["salt", "theta", "pres" if v["xrp"] else None]
            for o, nm in zip(out, names):
                if not isinstance(o, xr.DataArray):
                    return f"output of labelled input is not labelled ({v})"
                if list(o.dims) != lat:
                    return f"output dimensions {o.dims}, lateral dimensions {lat}"
                if "depth" in o.coords:
                    return "output keeps the vertical coordinate"
                for q in lat:
                    if q not in o.coords or not same(o.coords[q].values, co[q]):
                        return f"lateral coordinate {q} lost"
                if "area" in co and ("area" not in o.coords or not same(o.coords["area"].values, co["area"][1])):
                    return "auxiliary lateral coordinate lost"
                if o.name != nm:
                    return f"output named {o.name!r}, expected {nm!r}"
                wa = {"units": nm + "u"} if nm in ("salt", "theta") else ({} if nm is None else ({"units": "dbar"} if v["p1"] else {"units": "presu"}))
                if dict(o.attrs) != wa:
                    return f"attributes {o.attrs} of {nm!r}, expected {wa}"
        elif not v["xr"]:
            for o in out:
                if isinstance(o, xr.DataArray):
                    return "plain input gives labelled output"
    return None


def gen(rng):
    f = rng.choice(["potential", "anomaly", "omega", "traj", "ml"])
    interp = rng.choice(["linear", "linear", "pchip"])
    if f == "traj":
        shape = [rng.choice([1, 2, 4])]
    elif f == "omega":
        shape = [rng.choice([1, 2, 3]), rng.choice([2, 3])]
    else:
        shape = rng.choice([[2], [3, 2], [1, 3], [2, 1], [2, 2, 2]])
    N = int(np.prod(shape))
    nk = rng.choice([2, 3, 4, 5])
    diags = len(shape) == 2 and rng.random() < 0.5
    share = rng.random() < 0.6
    import h_omega
    while True:
        S, T, P = h_omega.similar(rng, N, nk, 0.2) if not share else gen_casts(rng, N, nk, True, True)
        if share and rng.random() < 0.5:
            P = [[None if x is None else float(round(x)) for x in r] for r in P]
            if any(a is not None and b is not None and not a < b for r in P for a, b in zip(r, r[1:])):
                continue
        k, K = vr(nan(S[0]), nan(P[0]))
        if K - k > 1:
            break
    Pm = nan(P[0])
    p0 = float(np.float32(rng.uniform(0.8 * Pm[k] + 0.2 * Pm[K - 1], 0.2 * Pm[k] + 0.8 * Pm[K - 1])))
    s0, t0 = at("linear", p0, Pm, nan(S[0])), at("linear", p0, Pm, nan(T[0]))
    e = PYEOS["nl"][0]
    iso = float(e(s0, t0, p0) if f == "potential" else e(s0, t0, p0) - e(35.0, 10.0, p0))
    nd = len(shape) + 1
    vs = []
    for _ in range(6):
        vs.append(dict(vd=rng.randrange(nd), lay=rng.choice(["C", "F", "strided", "rev", "f4"]), p1=share and rng.random() < 0.5,
                       pint=rng.random() < 0.3, xr=rng.random() < 0.6, xrp=rng.random() < 0.7, vcoord=rng.random() < 0.7, aux=rng.random() < 0.5,
                       arg=rng.choice(["pos", "neg", "name", "default"])))
    return dict(kind="inputs", fn=f, parr=rng.random() < 0.5, ml=rng.random() < 0.3, eos="nl", interp=interp, shape=shape, per=[0, 1], diags=diags and f != "ml", mode=rng.choice(["pin", "iso"]) if f != "omega" else "pin",
                pin=[0] * len(shape), p0=p0, iso=iso, dd=rng.choice([0.03, 0.3]), S=S, T=T, P=P, variants=vs)


def edge():
    r = random.Random(5)
    return [gen(r) for _ in range(12)]
