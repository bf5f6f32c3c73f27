"""Contracts of neutralocean/label.py: Veronis density."""
from .base import *  # noqa
from vpy import lift as L
from .ppi import increasing, PPI, pval_app, row
from .vert import allok, fn_name, kernel, snap, _R, _B
from .arrays import eos_st, kept

LAB = "neutralocean/label.py"


def fmul(x, y):
    return F(OR(x.n, y.n), x.v * y.v)


def fadd(x, y):
    return F(OR(x.n, y.n), x.v + y.v)


def cast(ex, st, m):
    n = z3.Int("n")
    st.assume(n >= 2)
    return {"P": arr(ex, st, "P", (n,)), "Sppc": arr(ex, st, "Sppc", (n, m)), "Tppc": arr(ex, st, "Tppc", (n, m)),
            "dp": fl("dp"), "eos_s_t": eos_st()}


def cast_req(c):
    P, C, D = c["P"], c["Sppc"], c["Tppc"]
    n = Z(P.shape[0])
    return [("two-points", n >= 2), ("same-length", AND(Z(C.shape[0]) == n, Z(D.shape[0]) == n)),
            ("increasing", increasing(P, 0, n)), ("finite", allok(P, n)), ("step", AND(NOT(as_f(c["dp"]).n), as_f(c["dp"]).v > 0))]


def piece_nan(c, k):
    """a coefficient of piece k is NaN"""
    out = []
    for C in (c["Sppc"], c["Tppc"]):
        m = C.shape[1]
        out += [as_f(C[k, j]).n for j in range(m)]
    return OR(*out)


class IntXK(Contract):
    """the integral over the part of piece k below p, by the trapezoidal rule with
    equal steps of at most dp"""

    path, func = LAB, "_int_x_k"
    params = ["p", "k", "dp", "P", "Sppc", "Tppc", "eos_s_t"]
    m = 2

    def setup(self, ex, st):
        d = cast(ex, st, self.m)
        d["p"], d["k"] = fl("p"), z3.Int("k")
        return d

    def requires(self, c):
        k, P, p = Z(c["k"]), c["P"], as_f(c["p"])
        return cast_req(c) + [("piece", inr(0, k, Z(P.shape[0]) - 1)), ("in-piece", AND(NOT(p.n), as_f(P[k]).v <= p.v, p.v <= as_f(P[k + 1]).v))]

    def result(self, ex, st, c):
        keys, args = [], []
        for q in ("P", "Sppc", "Tppc"):
            key, par = L.lift(c[q])
            keys.append(key)
            args += par
        keys.append(fn_name(c.raw("eos_s_t")))
        args += [Z(c["P"].shape[0]), as_f(c["p"]).v, Z(c["k"]), as_f(c["dp"]).v]
        v, n = L.uf("INTXK", "|".join(keys), args, [], [("", _R), (".nan", _B)])
        return F(n, v)

    def y(self, c, x):
        """the integrand: drho/ds ds/dp + drho/dt dt/dp at pressure x of piece k"""
        o = c.old
        k, fn = Z(o["k"]), o["eos_s_t"]
        dx = F(False, x - as_f(o["P"][k]).v)
        v = {}
        for nm, C in (("s", o["Sppc"]), ("t", o["Tppc"])):
            cs = [as_f(C[k, j]) for j in range(self.m)]
            v[nm], v["d" + nm] = pval_app(dx, cs, 0), pval_app(dx, cs, 1)
        a = (v["s"], v["t"], F(False, x))
        return fadd(fmul(fn.rs.scal(*a), v["ds"]), fmul(fn.rt.scal(*a), v["dt"]))

    def ensures(self, c):
        o = c.old
        r, p, k = as_f(c.res), as_f(o["p"]).v, Z(o["k"])
        end = as_f(o["P"][k + 1]).v
        out = [("nan", IFF(r.n, AND(p < end, piece_nan(o, k)))), ("nothing", IMP(p == end, AND(NOT(r.n), r.v == 0)))]
        if c.locals is not None:
            n = Z(c.locals["p_"].shape[0])
            x = lambda i: NPM.linspace_at(p, end, n, i)
            term = lambda i: z3.Q(1, 2) * (self.y(c, x(i + 1)).v + self.y(c, x(i)).v) * (x(i + 1) - x(i))
            s = NPM.new_sum(c.ex, "f", term, n - 1)
            out += [("steps", AND(n >= 1, z3.ToReal(n - 1) * as_f(o["dp"]).v >= end - p)),
                    ("trapezoids", IMP(NOT(r.n), r.v == s(n - 1)))]
        return out

    def __init__(self):
        def inv(c):
            o = c.old
            j = z3.Int("j!x")
            k = Z(o["k"])

            def dx(j):
                e = as_f(c["p_"][j])
                b = as_f(o["P"][k])
                return F(OR(e.n, b.n), e.v - b.v)

            for nm, C, d in (("s_", "Sppc", 0), ("t_", "Tppc", 0), ("dsdp_", "Sppc", 1), ("dtdp_", "Tppc", 1)):
                yield nm, lambda nm=nm, C=C, d=d: forall(j, IMP(inr(0, j, c["#next"]), feq(c[nm][j], pval_app(dx(j), [as_f(o[C][k, q]) for q in range(self.m)], d))))

        self.loops = [LoopSpec(inv)]


REG[(LAB, "_int_x_k")] = IntXK()
for _m in (2, 4):
    UNITS.append(type("IntXK", (IntXK,), dict(m=_m, modular=False, __module__=__name__, name=f"{LAB}:_int_x_k[order={_m}]"))())


class IntAll(Contract):
    """the integral from p0 to p1, piece by piece"""

    path, func = LAB, "_int_dlrpd_dz"
    params = ["p1", "p0", "P", "Sppc", "Tppc", "dp", "eos_s_t"]
    m = 2

    def setup(self, ex, st):
        d = cast(ex, st, self.m)
        d["p1"], d["p0"] = fl("p1", nan=True), fl("p0", nan=True)
        return d

    def requires(self, c):
        return cast_req(c)

    result = lambda self, ex, st, c: _intall(self, ex, st, c)

    def X(self, c, p, k):
        """what _int_x_k returns (its contract holds for every piece)"""
        o = c.old
        P = o["P"]
        args = [snap(c, o[q]) for q in ("P", "Sppc", "Tppc")]
        at = lambda p, k: as_f(c.app(c.ex.repo_fn(LAB, "_int_x_k"), F(False, p), k, o["dp"], *args, o["eos_s_t"]))
        if not getattr(c.ex, "_xk", False):
            c.ex._xk = True
            q, i = z3.Real("q!xk"), z3.Int("i!xk")
            x, end = at(q, i), as_f(P[i + 1]).v
            n = Z(P.shape[0])
            ok = AND(inr(0, i, n - 1), as_f(P[i]).v <= q, q <= end)
            for pat in (x.v, x.n):
                c.ex.axiom(z3.ForAll([q, i], Z(IMP(ok, AND(IFF(x.n, AND(q < end, piece_nan(o, i))), IMP(q == end, x.v == 0)))), patterns=[pat]))
        return at(p, k)

    def sums(self, c):
        """sum over whole pieces 0..m-1"""
        tab = c.ex.__dict__.setdefault("wholes", {})
        if "s" not in tab:
            P = c.old["P"]
            tab["s"] = NPM.new_sum(c.ex, "f", lambda k: self.X(c, as_f(P[k]).v, k).v, Z(P.shape[0]) - 1)
        return tab["s"]

    def ensures(self, c):
        o = c.old
        P = o["P"]
        n = Z(P.shape[0])
        r, p0, p1 = as_f(c.res), as_f(o["p0"]), as_f(o["p1"])
        a, b = as_f(P[0]).v, as_f(P[n - 1]).v
        inside = AND(NOT(p0.n), NOT(p1.n), *[AND(a <= q.v, q.v <= b) for q in (p0, p1)])
        lo, hi = z3.If(p1.v >= p0.v, p0.v, p1.v), z3.If(p1.v >= p0.v, p1.v, p0.v)
        sg = z3.If(p1.v >= p0.v, z3.RealVal(1), z3.RealVal(-1))
        i, j, k = z3.Ints("i!v j!v k!v")
        pc = lambda i, q: AND(inr(0, i, n - 1), as_f(P[i]).v <= q, q <= as_f(P[i + 1]).v)
        bad = lambda k: piece_nan(o, k)
        out = [("outside", IMP(NOT(inside), r.n)),
               ("missing", IMP(inside, forall(k, IMP(AND(inr(0, k, n - 1), bad(k), as_f(P[k]).v < hi, lo < as_f(P[k + 1]).v), r.n))))]
        touched = forall(k, IMP(AND(inr(0, k, n - 1), as_f(P[k]).v <= hi, lo <= as_f(P[k + 1]).v), NOT(bad(k))))
        out.append(("number", IMP(AND(inside, touched), NOT(r.n))))
        if c.locals is not None:
            S = self.sums(c)
            whole = self.X(c, lo, i).v + S(j + 1) - S(i + 1) - self.X(c, hi, j).v
            out += [("sum-of-pieces", IMP(AND(inside, touched), forall([i, j], IMP(AND(pc(i, lo), pc(j, hi)), r.v == sg * whole))))]
        return out

    def __init__(self):
        def inv(c):
            o = c.old
            P = o["P"]
            i = z3.Int("i!v")
            k0 = Z(c["k0"])

            def parts():
                d1 = as_f(c["d1"])
                x0 = self.X(c, as_f(c["p0"]).v, k0 - 1)
                S = self.sums(c)
                k = Z(c["#next"])
                return d1, x0, S, k

            def val():
                d1, x0, S, k = parts()
                return IMP(NOT(d1.n), d1.v == x0.v + S(k) - S(k0))

            def nan():
                d1, x0, S, k = parts()
                return IFF(d1.n, OR(x0.n, z3.Exists([i], z3.And(k0 <= i, i < k, Z(piece_nan(o, i))))))

            yield "value", val
            yield "nan", nan

        self.loops = [LoopSpec(inv)]


def _intall(self, ex, st, c):
    keys, args = [], []
    for q in ("P", "Sppc", "Tppc"):
        key, par = L.lift(c[q])
        keys.append(key)
        args += par
    keys.append(fn_name(c.raw("eos_s_t")))
    args += [Z(c["P"].shape[0]), as_f(c["dp"]).v]
    for q in ("p0", "p1"):
        args += [as_f(c[q]).v, Z(as_f(c[q]).n)]
    v, n = L.uf("INTALL", "|".join(keys), args, [], [("", _R), (".nan", _B)])
    return F(n, v)


REG[(LAB, "_int_dlrpd_dz")] = IntAll()
for _m in (2, 4):
    UNITS.append(type("IntAll", (IntAll,), dict(m=_m, modular=False, __module__=__name__, name=f"{LAB}:_int_dlrpd_dz[order={_m}]"))())


# ------------------------------------------------------------------ Veronis density
from .vert import KernelCall  # noqa

PCH = "neutralocean/ppinterp/pchip.py"
REG[(PCH, "pchip_coeffs_1")] = KernelCall(PCH, "pchip_coeffs_1", 4)


def coeffs(interp):
    return {"linear": ("neutralocean/ppinterp/linear.py", "linear_coeffs_1"), "pchip": (PCH, "pchip_coeffs_1")}[interp]


def mk_veronis(interp, start):
    class Ver(Contract):
        path, func = LAB, "veronis"
        params = ["p1", "S", "T", "P", "p0", "p_ref", "b", "dp", "interp", "eos", "grav", "rho_c"]
        modular = False

        def setup(self, ex, st):
            n = z3.Int("n")
            st.assume(n >= 2)
            d = {q: arr(ex, st, q, (n,)) for q in "STP"}
            d["p1"], d["p0"] = fl("p1", nan=True), fl("p0", nan=True) if start == "p0" else None
            d.update(p_ref=fl("p_ref"), b=fl("b"), dp=fl("dp"), interp=interp, eos=(ffun("eos", 3, nan="total"), eos_st()), grav=None, rho_c=None)
            return d

        def requires(self, c):
            S, T, P = c["S"], c["T"], c["P"]
            n = Z(P.shape[0])
            return [("increasing", increasing(P, 0, n)), ("finite", AND(*[allok(X, n) for X in (S, T, P)])), ("step", as_f(c["dp"]).v > 0)]

        def ensures(self, c):
            o = c.old
            eos, st_ = o["eos"]
            P = o["P"]
            n = Z(P.shape[0])
            r = as_f(c.res)
            p1 = as_f(o["p1"])
            p0 = as_f(o["p0"]) if start == "p0" else as_f(P[0])
            Pn, Sn, Tn = (snap(c, o[q]) for q in "PST")
            kf = c.ex.repo_fn(*coeffs(interp))
            Sc, Tc = c.app(kf, Pn, Sn), c.app(kf, Pn, Tn)
            s0, t0 = c.app(c.ex.repo_fn(PPI, "ppval_1_two"), p0, Pn, Sc, Tc, 0)
            pot = eos.scal(s0, t0, as_f(o["p_ref"]))
            integral = as_f(c.app(c.ex.repo_fn(LAB, "_int_dlrpd_dz"), p1, p0, Pn, Sc, Tc, o["dp"], st_))
            a, b = as_f(P[0]).v, as_f(P[n - 1]).v
            out = OR(p0.n, p1.n, *[OR(q.v < a, q.v > b) for q in (p0, p1)])
            want = fadd(pot, fmul(as_f(o["b"]), integral))
            return [("outside", IMP(out, r.n)), ("value", feq(r, want)), ("number", IMP(NOT(out), NOT(r.n)))] + [(q + "-kept", kept(c, q)) for q in "STP"]

    Ver.name = f"{LAB}:veronis[{interp},{'given start' if start == 'p0' else 'from the top'}]"
    contract(Ver)


for _i in ("linear", "pchip"):
    for _s in ("p0", None):
        mk_veronis(_i, _s)
