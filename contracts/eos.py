"""Contracts of neutralocean/eos/*.py

The density functions and their derivatives are closed-form expressions: their
bodies are executed symbolically, and the obligations are identities of rational
functions (exact algebra) against the published formula (C07) and against the
symbolic derivative of the density function executed from the same tree (C06)."""
import importlib.util, os
from .base import *  # noqa
from vpy import algebra as A

_sp = importlib.util.spec_from_file_location("eosref", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "eosref.py"))
eosref = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(eosref)

EOS = "neutralocean/eos/"
NV = 5  # w, t, p, grav, rho_c
W, T, P, G, R = (A.RatFn.var(i, NV) for i in range(NV))


def decider(c):
    facts = [f for f in c.st.pc]

    def decide(cond):
        for b in (True, False):
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(*facts)
            s.add(z3.Not(cond) if b else cond)
            if s.check() == z3.unsat:
                return b
        return None

    return decide


def tof(x):
    if isinstance(x, tuple):
        if len(x) != 1:
            raise Unsupported("one value expected")
        x = x[0]
    return as_f(x)


def lin(e, s):
    """coefficients (a, b) with e == a*s + b, given that s > 0"""
    from fractions import Fraction
    vals = []
    for q in (1, 2, 5):
        v = z3.simplify(z3.substitute(e, (s, z3.RealVal(q))))
        if not z3.is_rational_value(v):
            return None
        vals.append(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    a = vals[1] - vals[0]
    b = vals[0] - a
    return (a, b) if a * 5 + b == vals[2] and a else None


class Form:
    """conversion of executed terms to rational functions in (w, t, p, grav, rho_c),
    with a*s + b = w^2 for the square root that occurs"""

    def __init__(self, c, s, terms):
        self.decide = decider(c)
        self.a, self.b = A.Fraction(1), A.Fraction(0)
        for e in terms:
            for x in A.sqrt_args(e):
                ab = lin(x, s)
                if ab:
                    self.a, self.b = ab
                    break
        self.S = (W * W - self.b) / self.a
        self.env = {"s": self.S, "t": T, "p": P, "z": P, "grav": G, "rho_c": R}
        self.memo = {}

    def __call__(self, x):
        return A.to_ratfn(as_f(x).v, self.env, NV, self.decide, self.memo)

    def d(self, f, which):
        """partial derivative of the rational function f by s, t or p, repeatedly"""
        for ch in which:
            if ch == "s":
                f = f.diff(0) * (self.a / 2) / W
            else:
                f = f.diff("stp".index(ch))
        return f

    def ref(self, name, p=None):
        def sqrt(x):
            return x.sqrt()

        return {"jmd95": eosref.jmd95, "jmdfwg06": eosref.jmdfwg06, "gsw": eosref.specvol75}[name](self.S, T, P if p is None else p, sqrt=sqrt)


def stp(z="p"):
    return {"s": fl("s"), "t": fl("t"), z: fl(z)}


class _Eos(Contract):
    modular = False
    check_div = False
    eos = None

    def setup(self, ex, st):
        d = stp()
        st.assume(d["s"].v > 0)
        return d


# ------------------------------------------------------------ C07: the formula
def mk_value(eos, fn):
    class V(_Eos):
        path, func = EOS + eos + ".py", fn
        params = ["s", "t", "p"]

        def ensures(self, c):
            f = Form(c, z3.Real("s"), [tof(c.res).v])
            return [("published-formula", A.AlgGoal(f(tof(c.res)), f.ref(eos), f"{eos}.{fn} == published formula"))]

    V.__name__ = f"V_{eos}"
    V.name = f"{EOS}{eos}.py:{fn}[value]"
    contract(V)


for _e, _f in (("jmd95", "rho"), ("jmdfwg06", "rho"), ("gsw", "specvol")):
    mk_value(_e, _f)


# ------------------------------------------------------------ C06: the derivatives
FUNS = {
    "jmd95": ("rho", {"rho_s_t": ["s", "t"], "rho_p": ["p"]}),
    "jmdfwg06": ("rho", {"rho_s_t": ["s", "t"], "rho_p": ["p"]}),
    "gsw": ("specvol", {
        "specvol_first_derivs": ["s", "t", "p"],
        "specvol_second_derivs": ["ss", "st", "tt", "sp", "tp", "pp"],
        "specvol_third_derivs": ["sss", "sst", "stt", "ttt", "ssp", "stp", "ttp", "spp", "tpp", "ppp"],
        "specvol_s_t": ["s", "t"], "specvol_p": ["p"],
        "specvol_s_t_ss_st_tt_sp_tp": ["s", "t", "ss", "st", "tt", "sp", "tp"],
        "specvol_s_t_ss_st_tt_sp_tp_sss_sst_stt_ttt_ssp_stp_ttp_spp_tpp":
            ["s", "t", "ss", "st", "tt", "sp", "tp", "sss", "sst", "stt", "ttt", "ssp", "stp", "ttp", "spp", "tpp"],
    }),
}


def repo_fn(ex, path, fn):
    from vpy.engine import find_def
    mod = ex.repo.mod(path)
    node = find_def(mod, fn)
    if node is None:
        raise Unsupported(f"{fn} not found")
    return RepoFunc(mod, node, qual=fn)


def mk_deriv(eos, base, fn, ds):
    class D(_Eos):
        path, func = EOS + eos + ".py", fn
        params = ["s", "t", "p"]

        def ensures(self, c):
            args = stp()
            rho = tof(c.app(repo_fn(c.ex, self.path, base), args["s"], args["t"], args["p"]))
            f = Form(c, z3.Real("s"), [rho.v])
            r = f(rho)
            res = c.res if isinstance(c.res, tuple) else (c.res,)
            out = [("count", len(res) == len(ds))]
            for i, (v, d) in enumerate(zip(res, ds)):
                out.append((f"{i}:d/{d}", A.AlgGoal(f(tof(v)), f.d(r, d), f"component {i} of {eos}.{fn} == d/d{d} of {eos}.{base}")))
            return out

    D.__name__ = f"D_{eos}_{fn}"
    D.name = f"{EOS}{eos}.py:{fn}[deriv]"
    contract(D)


for _e, (_b, _fs) in FUNS.items():
    for _f, _ds in _fs.items():
        mk_deriv(_e, _b, _f, _ds)

# ------------------------------------------------------------ tools
TOOLS = EOS + "tools.py"


def mk_make(eos, fn, nd, bsq):
    """make_eos, make_eos_s_t, make_eos_p for a name: the returned function is the
    published density (its derivatives), in pressure or Boussinesq depth"""

    class M(Contract):
        path, func = TOOLS, fn
        params = ["eos", "grav", "rho_c"]
        modular = False
        check_div = False
        numba = False

        def setup(self, ex, st):
            st.assume(z3.Real("s") > 0)
            if not bsq:
                return {"eos": eos}
            return {"eos": eos, "grav": fl("grav"), "rho_c": fl("rho_c")}

        def ensures(self, c):
            a = stp()
            res = c.app(c.rawres, a["s"], a["t"], a["p"])
            res = res if isinstance(res, tuple) else (res,)
            ref = eosref.SFAC, eosref.OFFSET
            f = Form(c, z3.Real("s"), [tof(x).v for x in res])
            if eos == "gsw":
                f.a, f.b = A.fr(ref[0]), A.fr(ref[1])
            else:
                f.a, f.b = A.Fraction(1), A.Fraction(0)
            f.S = (W * W - f.b) / f.a
            f.env["s"] = f.S
            f.memo = {}
            pp = P * G * R * A.Fraction(1, 10000) if bsq else P
            ref = f.ref(eos, pp)
            ds = {"make_eos": [""], "make_eos_s_t": ["s", "t"], "make_eos_p": ["p"]}[fn]
            out = [("count", len(res) == len(ds))]
            for i, (v, d) in enumerate(zip(res, ds)):
                out.append((f"{i}:{d or 'value'}", A.AlgGoal(f(tof(v)), f.d(ref, d), f"{fn}({eos!r}{', grav, rho_c' if bsq else ''}) component {i} == published {'d/d' + d if d else 'value'}")))
            return out

    M.__name__ = f"M_{eos}_{fn}_{int(bsq)}"
    M.name = f"{TOOLS}:{fn}[{eos}{',bsq' if bsq else ''}]"
    contract(M)


for _e in FUNS:
    for _f in ("make_eos", "make_eos_s_t", "make_eos_p"):
        mk_make(_e, _f, 0, False)
        mk_make(_e, _f, 0, True)


def user_fn():
    return ffun("eosfn", 3)


def mk_user(fn, bsq):
    """a user's function is used as it is, or in depth with the chain rule factor"""
    nd = 1 if fn == "make_eos_p" else 0

    class U(Contract):
        path, func = TOOLS, fn
        params = ["eos", "grav", "rho_c"]
        modular = False
        numba = False

        def setup(self, ex, st):
            self.fn = user_fn()
            d = {"eos": self.fn}
            if bsq:
                d.update(grav=fl("grav"), rho_c=fl("rho_c"))
            return d

        def ensures(self, c):
            return bsq_goal(c, self.fn, nd, bsq)

    U.__name__ = f"U_{fn}_{int(bsq)}"
    U.name = f"{TOOLS}:{fn}[user{',bsq' if bsq else ''}]"
    contract(U)


def bsq_goal(c, fn, nd, bsq):
    s, t, z = fl("s"), fl("t"), fl("z")
    got = as_f(c.app(c.rawres, s, t, z))
    k = fl("grav").v * fl("rho_c").v / 10000 if bsq else z3.RealVal(1)
    # through an equal argument: the uninterpreted function is congruent
    q = z3.Real("q!arg")
    want = as_f(fn.scal(s, t, F(False, q)))
    fac = z3.RealVal(1)
    for _ in range(nd):
        fac = fac * k
    return [("same", z3.ForAll([q], z3.Implies(q == z.v * k, Z(feq(got, F(want.n, want.v * fac))))))]


for _f in ("make_eos", "make_eos_s_t", "make_eos_p"):
    mk_user(_f, False)
    mk_user(_f, True)


def mk_bsq(nd):
    class B(Contract):
        path, func = TOOLS, "make_bsq"
        params = ["fn", "grav", "rho_c", "num_p_derivs"]
        modular = False
        numba = False

        def setup(self, ex, st):
            self.fn = user_fn()
            return {"fn": self.fn, "grav": fl("grav"), "rho_c": fl("rho_c"), "num_p_derivs": nd}

        def ensures(self, c):
            return bsq_goal(c, self.fn, nd, True)

    B.__name__ = f"B_{nd}"
    B.name = f"{TOOLS}:make_bsq[{nd}]"
    contract(B)


for _n in range(4):
    mk_bsq(_n)


@contract
class VecEos(Contract):
    path, func = TOOLS, "vectorize_eos"
    params = ["eos"]
    modular = False
    numba = False

    def setup(self, ex, st):
        self.fn = user_fn()
        return {"eos": self.fn}

    def ensures(self, c):
        s, t, p = fl("s"), fl("t"), fl("p")
        return [("same", feq(c.app(c.rawres, s, t, p), self.fn.scal(s, t, p)))]


def mk_bad(fn, val, tag, exc):
    """what is neither a known name nor a function is refused"""

    class X(Contract):
        path, func = TOOLS, fn
        params = ["eos", "grav", "rho_c"]
        modular = False
        numba = False
        must_raise = exc

        def setup(self, ex, st):
            return {"eos": val}

    X.__name__ = f"X_{fn}_{tag}"
    X.name = f"{TOOLS}:{fn}[{tag}]"
    contract(X)


for _f in ("make_eos", "make_eos_s_t", "make_eos_p"):
    mk_bad(_f, "no such equation", "unknown-name", ["ValueError"])
    mk_bad(_f, 1025, "not-callable", ["TypeError"])
