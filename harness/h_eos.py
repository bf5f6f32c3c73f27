"""C06, C07: equations of state"""
import importlib, importlib.util, math, os, sys, types
import numpy as np
from hutil import *
from jet import Jet
import eosref
import numba
import neutralocean
from neutralocean.eos import make_eos, make_eos_s_t, make_eos_p, vectorize_eos
from neutralocean.eos import tools

ROOT = os.path.dirname(os.path.abspath(neutralocean.__file__))


def load_pure(name):
    """the module's source with numba's decorators as identities (same text)"""
    stub = types.ModuleType("numba")

    def deco(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k and isinstance(a[0], types.FunctionType):
            return a[0]
        return lambda f: f

    class Ty:
        def __call__(self, *a):
            return None

        def __getitem__(self, i):
            return self

    for n in ("njit", "jit", "vectorize", "guvectorize"):
        setattr(stub, n, deco)
    for n in ("f8", "float64", "i8", "int64", "types"):
        setattr(stub, n, Ty())
    spec = importlib.util.spec_from_file_location("pure_" + name, os.path.join(ROOT, "eos", name + ".py"))
    mod = importlib.util.module_from_spec(spec)
    old = sys.modules["numba"]
    sys.modules["numba"] = stub
    try:
        mod.__package__ = "neutralocean.eos"
        spec.loader.exec_module(mod)
    finally:
        sys.modules["numba"] = old
    return mod


MOD = {n: importlib.import_module("neutralocean.eos." + n) for n in ("jmd95", "jmdfwg06", "gsw")}
PURE = {}
for _n in MOD:
    try:
        PURE[_n] = load_pure(_n)
    except Exception:
        PURE[_n] = None

S, T, P = (1, 0, 0), (0, 1, 0), (0, 0, 1)


def m(txt):
    return (txt.count("s"), txt.count("t"), txt.count("p"))


FUNS = {
    "jmd95": ("rho", {"rho_s_t": ["s", "t"], "rho_p": ["p"]}),
    "jmdfwg06": ("rho", {"rho_s_t": ["s", "t"], "rho_p": ["p"]}),
    "gsw": ("specvol", {
        "specvol_first_derivs": ["s", "t", "p"],
        "specvol_second_derivs": ["ss", "st", "tt", "sp", "tp", "pp"],
        "specvol_third_derivs": ["sss", "sst", "stt", "ttt", "ssp", "stp", "ttp", "spp", "tpp", "ppp"],
        "specvol_s_t": ["s", "t"], "specvol_p": ["p"],
        "specvol_s_t_ss_st_tt_sp_tp": ["s", "t", "ss", "st", "tt", "sp", "tp"],
        "specvol_s_t_ss_st_tt_sp_tp_sss_sst_stt_ttt_ssp_stp_ttp_spp_tpp":
            ["s", "t", "ss", "st", "tt", "sp", "tp", "sss", "sst", "stt", "ttt", "ssp", "stp", "ttp", "spp", "tpp"],
    }),
}
# natural size of each variable, to judge errors relative to the variation of the density
SC = {"s": 35.0, "t": 20.0, "p": 4000.0}


def size(txt):
    r = 1.0
    for ch in txt:
        r *= SC[ch]
    return r


def tup(x):
    return tuple(x) if isinstance(x, (tuple, list)) else (x,)


def deriv_jet(eos, s, t, p):
    base, fs = FUNS[eos]
    j = getattr(PURE[eos], base)(Jet.var(s, 0), Jet.var(t, 1), Jet.var(p, 2))
    if not isinstance(j, Jet):
        raise TypeError("no jet")
    return {d: float(j.deriv(m(d))) for ds in fs.values() for d in ds}, float(j.v)


# 8-point central differences of the analytic derivative one order lower
H = {"s": 0.05, "t": 0.05, "p": 20.0}
W = [(1, 4 / 5), (2, -1 / 5), (3, 4 / 105), (4, -1 / 280)]


def deriv_fd(eos, s, t, p):
    base, fs = FUNS[eos]
    M = MOD[eos]
    lower = {"": getattr(M, base)}
    for fn, ds in fs.items():
        for i, d in enumerate(ds):
            lower.setdefault(d, lambda a, b, c, fn=fn, i=i: tup(getattr(M, fn)(a, b, c))[i])
    out = {}
    for ds in fs.values():
        for d in ds:
            for k in range(len(d)):
                lo = d[:k] + d[k + 1:]
                if lo in lower:
                    break
            else:
                continue
            v, h = d[k], H[d[k]]
            acc = 0.0
            for n, w in W:
                q = [[s, t, p], [s, t, p]]
                q[0]["stp".index(v)] += n * h
                q[1]["stp".index(v)] -= n * h
                acc += w * (lower[lo](*q[0]) - lower[lo](*q[1]))
            out[d] = acc / h
    return out, None


def check(c):
    k = c["kind"]
    s, t, p = c.get("s"), c.get("t"), c.get("p")
    if k == "deriv":
        eos = c["eos"]
        base, fs = FUNS[eos]
        M = MOD[eos]
        v0 = getattr(M, base)(s, t, p)
        exact = PURE[eos] is not None
        if exact:
            try:
                ref, jv = deriv_jet(eos, s, t, p)
                if abs(jv - v0) > 1e-9 * abs(v0):
                    exact = False  # another branch was taken for series
            except (TypeError, AttributeError, NotImplementedError):
                exact = False
        if not exact:
            if s < 0.3:
                raise Skip
            ref, _ = deriv_fd(eos, s, t, p)
        for fn, ds in fs.items():
            if not hasattr(M, fn):
                if fn.split("_", 1)[1] in ("s_t", "p"):
                    return f"{eos}.{fn} is missing"
                continue
            got = tup(getattr(M, fn)(s, t, p))
            if len(got) != len(ds):
                return f"{eos}.{fn} returns {len(got)} values"
            for g, d in zip(got, ds):
                if d not in ref:
                    continue
                w = ref[d]
                # relative to the value, plus rounding of the alternating sums of terms
                tol = (1e-9 * abs(w) + 3e-13 * abs(v0) / size(d)) if exact else (1e-6 * abs(w) + 1e-8 * abs(v0) / size(d))
                if not abs(float(g) - w) <= tol:
                    return f"{eos}.{fn}: derivative {d} at (s,t,p)=({s},{t},{p}) is {float(g)!r}, should be {w!r}"
        return None
    if k == "value":
        eos = c["eos"]
        base, fs = FUNS[eos]
        g = float(getattr(MOD[eos], base)(s, t, p))
        w = eosref.REF[eos](s, t, p)
        if not abs(g - w) <= 1e-11 * abs(w):
            return f"{eos}.{base}({s},{t},{p}) = {g!r}, published formula {w!r}"
        return None
    if k == "gswc":
        try:
            M = importlib.import_module("neutralocean.eos.gswc")
        except (ImportError, OSError, AttributeError):
            raise Skip
        import gsw
        g, w = float(M.rho(s, t, p)), float(gsw.rho(s, t, p))
        if not abs(g - w) <= 1e-12 * w:
            return f"gswc.rho = {g!r}, gsw.rho = {w!r}"
        rs, rt, rp = (float(x) for x in gsw.rho_first_derivatives(s, t, p))
        a = [float(x) for x in M.rho_s_t(s, t, p)] + [float(M.rho_p(s, t, p))]
        for nm, x, y in zip("stp", a, [rs, rt, rp * 1e4]):
            if not abs(x - y) <= 1e-10 * abs(y) + 1e-12:
                return f"gswc derivative {nm}: {x!r}, gsw {y!r}"
        return None
    if k == "make":
        # a history of requests: each must give its own function (caches!)
        for q in c["reqs"]:
            eos, which, grav, rho_c = q["eos"], q["which"], q["grav"], q["rho_c"]
            base, fs = FUNS[eos]
            M = MOD[eos]
            user = q.get("user")
            arg = getattr(M, base + {"": "", "s_t": "_s_t", "p": "_p"}[which]) if user else eos
            mk = {"": make_eos, "s_t": make_eos_s_t, "p": make_eos_p}[which]
            fn = mk(arg, grav, rho_c) if not q.get("kw") else mk(arg, rho_c=rho_c, grav=grav)
            z2p = 1e-4 * grav * rho_c if grav is not None and rho_c is not None else 1.0
            got = tup(fn(s, t, p))
            raw = tup(getattr(M, base + {"": "", "s_t": "_s_t", "p": "_p"}[which])(s, t, p * z2p))
            if which == "p":
                raw = tuple(r * z2p for r in raw)
            for g, w in zip(got, raw):
                if not abs(g - w) <= 1e-12 * abs(w):
                    return f"make_eos{'_' + which if which else ''}({eos!r}{' function' if user else ''}, {grav}, {rho_c}) at {(s, t, p)} gives {g!r}, should be {w!r}"
            if len(got) != len(raw):
                return "number of values"
            if q.get("vec") and which != "s_t":
                vf = vectorize_eos(fn)
                a = np.array([s, s + 1.0, s + 2.0])
                o = vf(a, t, p)
                for i in range(3):
                    if not o[i] == fn(a[i], t, p):
                        return f"vectorised {which or 'eos'} differs: {o[i]!r} {fn(a[i], t, p)!r}"
                o2 = vf(a[:, None], np.array([t, t + 1.0])[None, :], p)
                if o2.shape != (3, 2) or not o2[1, 1] == fn(a[1], t + 1.0, p):
                    return "vectorised eos does not broadcast"
        return None
    if k == "bsq":
        # a history of Boussinesq functions of every derivative order
        M = MOD["jmd95"]
        fns = {"rho": M.rho, "poly": poly}
        for q in c["reqs"]:
            f = fns[q["f"]]
            g, r, n = q["grav"], q["rho_c"], q["n"]
            z = 1e-4 * g * r
            fb = tools.make_bsq(f, g, r, n) if q["n"] or not q.get("short") else tools.make_bsq(f, g, r)
            got, w = fb(s, t, p), f(s, t, p * z) * z**n
            if not abs(got - w) <= 1e-12 * abs(w):
                return f"make_bsq of order {n} with grav={g}, rho_c={r} at {(s, t, p)} gives {got!r}, should be {w!r}"
        return None
    if k == "bad":
        for mk in (make_eos, make_eos_s_t, make_eos_p):
            try:
                mk(c["name"] if not isinstance(c["name"], list) else 3.5)
            except (ValueError, TypeError, KeyError, AttributeError, ImportError):
                continue
            return f"{mk.__name__}({c['name']!r}) is not rejected"
        return None
    raise Skip


@numba.njit
def poly(s, t, p):
    return 1.0 + s + t * p + p * p


def pt(rng):
    s = rng.choice([rng.uniform(0.01, 45), rng.uniform(30, 38), 35.0, 0.5, rng.uniform(0.01, 2)])
    t = rng.choice([rng.uniform(-3, 40), 0.0, -2.0, 10.0, rng.uniform(-2, 3)])
    p = rng.choice([rng.uniform(0, 11000), 0.0, 1000.0, 5000.0, rng.uniform(0, 100)])
    return dict(s=s, t=t, p=p)


def edge():
    out = []
    for e in FUNS:
        for s, t, p in ((35.0, 10.0, 1000.0), (20.0, 25.0, 6000.0), (40.0, -1.5, 0.0), (1.0, 35.0, 9000.0), (5.0, 0.0, 4000.0)):
            out.append(dict(kind="deriv", eos=e, s=s, t=t, p=p))
            out.append(dict(kind="value", eos=e, s=s, t=t, p=p))
        out.append(dict(kind="value", eos=e, s=0.0, t=15.0, p=100.0))
    for w in ("", "s_t", "p"):
        for g, r in ((None, None), (9.81, 1027.5), (9.8, None), (None, 1000.0), (9.7, 1035.0)):
            out.append(dict(kind="make", s=35.0, t=10.0, p=2000.0, reqs=[dict(eos=e, which=w, grav=g, rho_c=r, vec=(e == "jmd95")) for e in FUNS]))
    out.append(dict(kind="bsq", s=35.0, t=10.0, p=2000.0, reqs=[dict(f="poly", grav=9.81, rho_c=1027.5, n=n) for n in (0, 1, 2, 3)]))
    out.append(dict(kind="gswc", s=35.0, t=10.0, p=2000.0))
    for n in ("teos", "", "JMD95", "rho", "gswc2", [3.5]):
        out.append(dict(kind="bad", name=n))
    return out


POOL = [(None, None), (9.81, 1027.5), (9.7, 1035.0), (9.7963, 1030.0), (10.0, 1000.0), (9.8, None), (None, 1000.0)]


def gen(rng):
    k = rng.choice(["deriv"] * 5 + ["value"] * 5 + ["gswc", "make", "bsq"])
    e = rng.choice(list(FUNS))
    c = dict(kind=k, eos=e, **pt(rng))
    if k == "bsq":
        c["s"] = max(c["s"], 0.5)
        c["reqs"] = [dict(f=rng.choice(["rho", "poly"]), grav=rng.choice([9.81, 9.7, 10.0]), rho_c=rng.choice([1000.0, 1027.5, 1035.0]), n=rng.choice([0, 1, 2, 3]), short=rng.random() < 0.5) for _ in range(3)]
    if k == "make":
        c["s"] = max(c["s"], 0.5)
        c["reqs"] = []
        for _ in range(rng.randint(1, 4)):
            g, r = rng.choice(POOL)
            c["reqs"].append(dict(eos=rng.choice(list(FUNS)), which=rng.choice(["", "s_t", "p"]), grav=g, rho_c=r,
                                  user=rng.random() < 0.4, kw=rng.random() < 0.3, vec=rng.random() < 0.2))
    return c
