"""Contracts of neutralocean/surface/_vertsolve.py and neutralocean/traj.py: a zero
of a density difference along one cast."""
from .base import *  # noqa
from vpy import lift as L
from . import ppi as _p1, pchip as _p2, fzero as _p3  # their registrations come first
from .ppi import increasing, ok1, ok2, vr_spec, seg_spec, PPI, LIB
from .fzero import vabs, tolr

VS = "neutralocean/surface/_vertsolve.py"
TRJ = "neutralocean/traj.py"
_R, _B, _I = z3.RealSort(), z3.BoolSort(), z3.IntSort()


def allok(X, n):
    j = z3.Int("j!ok")
    return forall(j, IMP(inr(0, j, n), ok1(X, j)))


def rows_ok(C):
    """the coefficients of every piece but the last (which has no right end) are numbers"""
    i, j = z3.Ints("i!ok j!ok")
    return forall([i, j], IMP(AND(inr(0, i, SUB(C.shape[0], 1)), inr(0, j, C.shape[1])), NOT(as_f(C[i, j]).n)))


def fa_pat(q, body, pat):
    try:
        return z3.ForAll([q], body, patterns=[pat])
    except z3.Z3Exception:  # the pattern mentions logical connectives
        return z3.ForAll([q], body)


class PPValCall(Contract):
    """ppval_1_nonan_two for its callers: some function of the break points, the
    coefficients and the site, a number inside the break points (proved for
    orders 2 and 4: units ppval_1_nonan_two[...]) and NaN outside"""

    path, func = PPI, "ppval_1_nonan_two"
    params = ["x", "X", "Yppc", "Zppc", "d"]
    nonan = True

    def requires(self, c):
        X, C, D = c["X"], c["Yppc"], c["Zppc"]
        n = Z(X.shape[0])
        out = [("nonempty", n >= 1), ("same-length", AND(Z(C.shape[0]) == n, Z(D.shape[0]) == n))]
        if self.nonan:
            out += [("increasing", increasing(X, 0, n)), ("finite", allok(X, n))]
        return out

    def result(self, ex, st, c):
        X, x, d = c["X"], as_f(c["x"]), c["d"]
        if not isinstance(d, int):
            raise Unsupported("ppval: derivative")
        n = Z(X.shape[0])
        res = []
        for nm in ("Yppc", "Zppc"):
            C = c[nm]
            k1, p1 = L.lift(X)
            k2, p2 = L.lift(C)
            ap = lambda v: L.uf(f"PPV{d}", k1 + "|" + k2, p1 + p2, [n, Z(C.shape[1]), v], [("", _R), (".nan", _B)])
            v, nan = ap(x.v)
            key = ("ppv", v.decl().name(), tuple(z3.simplify(Z(p)).get_id() for p in p1 + p2), z3.simplify(n).get_id())
            tab = ex.__dict__.setdefault("ppv", {})
            if key not in tab:
                q = z3.Real("x!pp")
                av, an = ap(q)
                tab[key] = (v, p1, p2, n)
                inside = AND(as_f(X[0]).v <= q, q <= as_f(X[SUB(X.shape[0], 1)]).v)
                hyp = AND(n >= 2, increasing(X, 0, n), allok(X, n))
                full = AND(hyp, rows_ok(C)) if d == 0 else hyp
                if d == 0:
                    ex.axiom(z3.Implies(Z(full), fa_pat(q, z3.Implies(Z(inside), z3.Not(an)), an)), [an])
                ex.axiom(z3.Implies(Z(hyp), fa_pat(q, z3.Implies(Z(NOT(inside)), an), an)), [an])
            res.append(F(OR(x.n, nan), v))
        return tuple(res)

    def ensures(self, c):
        return []


REG[(PPI, "ppval_1_nonan_two")] = PPValCall()


class PPValTwoCall(PPValCall):
    """ppval_1_two on data without NaN: the same function (lemma:ppval-agree)"""

    func = "ppval_1_two"

    def requires(self, c):
        n = Z(c["X"].shape[0])
        i = z3.Int("i!ok")
        return PPValCall.requires(self, c) + [("two-points", n >= 2)] + [
            ("no-nan", AND(*[forall(i, IMP(inr(0, i, n), NOT(as_f(C[i, SUB(C.shape[1], 1)]).n))) for C in (c["Yppc"], c["Zppc"])]))]


REG[(PPI, "ppval_1_two")] = PPValTwoCall()


@contract
class Agree(Lemma):
    func = name = "lemma:ppval-agree"

    def lemmas(self):
        n, k, K, i, m = z3.Ints("n k K i m")
        x = z3.Real("x")
        X = ArrV(fresh_content("X", (n,), "f", name="X"))
        C = ArrV(fresh_content("C", (n,), "f", name="Clast"))
        inc = [n >= 2, Z(increasing(X, 0, n)), Z(allok(X, n)), Z(allok(C, n))]
        yield "whole-range", inc + [Z(f) for _, f in vr_spec(X, C, k, K, n)], z3.And(k == 0, K == n)
        seg = lambda m: z3.Implies(z3.And(as_f(X[0]).v <= x, x <= as_f(X[m]).v), z3.Exists([i], Z(seg_spec(X, 0, m + 1, i, x))))
        yield "piece-base", inc, seg(z3.IntVal(1))
        yield "piece-step", inc + [1 <= m, m < n - 1, seg(m)], seg(m + 1)
        j = z3.Int("j")
        yield "piece-unique", inc + [Z(seg_spec(X, 0, n, i, x)), Z(seg_spec(X, 0, n, j, x))], i == j


def ppc_fn(name="ppc_fn", order=None):
    """an interpolation kernel (linear_coeffs_1, pchip_coeffs_1 or the like): needs
    increasing abscissae, gives numbers for every piece of finite data.  Proved for
    the two kernels of the package (units of C05); assumed for others"""

    def spec(ex, st, args, kw):
        X, Y = args
        cx = Ctx(ex, st, frame={"X": X, "Y": Y})
        X, Y = cx["X"], cx["Y"]
        n = Z(X.shape[0])
        m = order or z3.Int("order")
        ex.oblige(st, "pre", f"{name}.same-length", n == Z(Y.shape[0]), name)
        ex.oblige(st, "pre", f"{name}.increasing", Z(increasing(X, 0, n)), name)
        ex.oblige(st, "pre", f"{name}.finite", Z(allok(X, n)), name)
        k1, p1 = L.lift(X)
        k2, p2 = L.lift(Y)

        def get(idx):
            v, nan = L.uf(name, k1 + "|" + k2, p1 + p2, [n, idx[0], idx[1]], [("", _R), (".nan", _B)])
            return F(nan, v)

        C = Content((X.shape[0], m), "f", get)
        Cv = ArrV(C)
        hd = [as_f(Cv[0, 0]).n]
        ex.axiom(z3.Implies(Z(AND(increasing(X, 0, n), allok(X, n), allok(Y, n))), Z(rows_ok(Cv))), hd)
        i = z3.Int("i!ok")
        ex.axiom(z3.Implies(Z(allok(Y, n)), Z(forall(i, IMP(inr(0, i, n), NOT(as_f(Cv[i, SUB(m, 1)]).n))))), hd)
        ex.axiom(z3.Int("order") >= 1)
        return ex.new_arr(st, C)

    return OpaqueFn(name, spec)


def mono_rows(P, S):
    """pressure increases along each cast where the data are valid"""
    n, a, b = z3.Ints("n!c a!c b!c")
    return forall([n, a, b], IMP(AND(inr(0, n, P.shape[0]), 0 <= a, a < b, b < Z(P.shape[1]), ok2(S[n], P[n], a), ok2(S[n], P[n], b)),
                                 as_f(P[n, a]).v < as_f(P[n, b]).v))


def t_ok(S, T, P):
    n, a = z3.Ints("n!c a!c")
    return forall([n, a], IMP(AND(inr(0, n, P.shape[0]), inr(0, a, P.shape[1]), ok2(S[n], P[n], a)), ok1(T[n], a)))


def vrange(c, S, P):
    con = REG[(LIB, "valid_range_1_two")]
    cx = Ctx(c.ex, c.st, frame={"X": S, "Y": P})
    return con.result(c.ex, c.st, cx)


class Cast:
    """what the code should compute for cast n, in the words of the code's own
    verified parts: valid range, coefficients, evaluation, zero function"""

    def __init__(self, c, S, T, P, n, zero, tail, ppc, x0):
        """zero(x, P, Sppc, Tppc, *tail)"""
        self.c = c
        ex, st = c.ex, c.st
        S, T, P = S[n], T[n], P[n]
        self.k, self.K = vrange(c, S, P)
        self.wide = self.K - self.k > 1
        self.p0, self.p1 = as_f(P[self.k]).v, as_f(P[self.K - 1]).v
        sl = lambda A: snap(c, A.slice(self.k, self.K))
        self.Pn = sl(P)
        self.Sc = c.app(ppc, self.Pn, sl(S))
        self.Tc = c.app(ppc, self.Pn, sl(T))
        self.zero, self.tail, self.x0 = zero, tail, x0

    def f(self, x):
        return as_f(self.c.app(self.zero, F(False, x), self.Pn, self.Sc, self.Tc, *self.tail))

    def st_at(self, x):
        return self.c.app(self.c.ex.repo_fn(PPI, "ppval_1_nonan_two"), x, self.Pn, self.Sc, self.Tc, 0)

    def same_sign(self):
        a, b = self.f(self.p0), self.f(self.p1)
        return AND(a.v != 0, b.v != 0, IFF(a.v > 0, b.v > 0))

    def root(self, r, t):
        fr = self.f(r)
        z = z3.Real("z!w")
        fz = self.f(z)
        return OR(fr.v == 0, z3.Exists([z], z3.And(self.p0 <= z, z <= self.p1, vabs(z - r) <= 2 * tolr(r, t), sgn_opp(fr.v, fz.v))))


def snap(c, view):
    """an ArrV as an array value (for c.app)"""
    return c.ex.new_arr(c.st, Content(view.shape, view.kind, lambda i: view[tuple(i)]))


def solved(cast, s, t, p, tol, n):
    """(s, t, p) of cast n is what C08 states"""
    p_, s_, t_ = as_f(p[n]), as_f(s[n]), as_f(t[n])
    si, ti = cast.st_at(p_)
    ok = NOT(p_.n)
    return [
        ("nan", AND(IMP(NOT(cast.wide), p_.n), IMP(AND(p_.n, cast.wide), cast.same_sign()))),
        ("inside", IMP(ok, AND(cast.p0 <= p_.v, p_.v <= cast.p1))),
        ("root", IMP(ok, cast.root(p_.v, tol))),
        ("salinity", AND(IFF(s_.n, p_.n), IMP(ok, feq(s_, si)))),
        ("temperature", AND(IFF(t_.n, p_.n), IMP(ok, feq(t_, ti)))),
    ]


def mk_vs(kind):
    class VSolve(Contract):
        path, func = VS, "_vertsolve"
        params = ["S", "T", "P", "ref", "d0", "tol_p", "eos", "ppc_fn", "zero_func"]
        modular = False

        def setup(self, ex, st):
            N, M = z3.Ints("N M")
            st.assume(z3.And(N >= 0, M >= 0))
            d = {q: arr(ex, st, q, (N, M)) for q in "STP"}
            d["ref"] = fl("ref") if kind == "potential" else (fl("ref0"), fl("ref1"))
            d["d0"] = fl("d0")
            d["tol_p"] = fl("tol_p")
            d["eos"] = ffun("eos", 3, nan="total")
            d["ppc_fn"] = ppc_fn()
            d["zero_func"] = ex.repo_fn(VS, "_zero_" + kind)
            return d

        def requires(self, c):
            S, T, P = c["S"], c["T"], c["P"]
            return [("pressure-increases", mono_rows(P, S)), ("t-valid", t_ok(S, T, P)), ("tol", as_f(c["tol_p"]).v >= 0)]

        def cast(self, c, n):
            o = c.old
            return want_cast(c, o["S"], o["T"], o["P"], n, kind, o["ref"], o["d0"], o["eos"].scal, o["ppc_fn"])

        def ensures(self, c):
            s, t, p = c.res
            o = c.old
            n = z3.Int("n!e")
            N = Z(o["S"].shape[0])
            out = [("shape", AND(*[AND(len(x.shape) == 1, Z(x.shape[0]) == N) for x in (s, t, p)]))]
            for lab, f in solved(self.cast(c, n), s, t, p, as_f(o["tol_p"]).v, n):
                out.append((lab, forall(n, IMP(inr(0, n, N), f))))
            return out

        def inv(self, c):
            n = z3.Int("n!e")
            cast = self.cast(c, n)
            tol = as_f(c.old["tol_p"]).v
            N = c.old["S"].shape[0]
            for i, lab in enumerate(("nan", "inside", "root", "salinity", "temperature")):
                yield lab, lambda i=i: forall(n, IMP(inr(0, n, c["#next"]), solved(cast, c["s"], c["t"], c["p"], tol, n)[i][1]))
            yield "rest", lambda: forall(n, IMP(inr(c["#next"], n, N), AND(*[as_f(c[q][n]).n for q in "stp"])))

        def __init__(self):
            self.loops = [LoopSpec(self.inv, alone=("s", "t", "p"))]

    VSolve.name = f"{VS}:_vertsolve[{kind}]"
    contract(VSolve)


for _k in ("potential", "anomaly"):
    mk_vs(_k)


class VSolveCall(Contract):
    """_vertsolve for its callers (proved for both zero functions above)"""

    path, func = VS, "_vertsolve"
    params = ["S", "T", "P", "ref", "d0", "tol_p", "eos", "ppc_fn", "zero_func"]

    def requires(self, c):
        S, T, P = c["S"], c["T"], c["P"]
        d0 = as_f(c["d0"])
        refs = c["ref"] if isinstance(c["ref"], tuple) else (c["ref"],)
        z = c.raw("zero_func")
        ok = isinstance(z, RepoFunc) and ((z.qual == "_zero_potential" and len(refs) == 1) or (z.qual == "_zero_anomaly" and len(refs) == 2))
        return [("zero-func", ok), ("same-shape", AND(*[Z(x.shape[i]) == Z(S.shape[i]) for x in (T, P) for i in range(2)])),
                ("pressure-increases", mono_rows(P, S)), ("t-valid", t_ok(S, T, P)), ("tol", as_f(c["tol_p"]).v >= 0),
                ("numbers", AND(NOT(d0.n), *[NOT(as_f(r).n) for r in refs]))]

    def result(self, ex, st, c):
        return tuple(ex.fresh_arr(st, "vs." + q, (c.old["S"].shape[0],), "f", True) for q in "stp")

    def ensures(self, c):
        s, t, p = c.res
        o = c.old
        n = z3.Int("n!e")
        eos = eos_spec(c, c.raw("eos"))
        cast = want_cast(c, o["S"], o["T"], o["P"], n, c.raw("zero_func").qual[6:], o["ref"], o["d0"], eos, c.raw("ppc_fn"))
        return [(lab, forall(n, IMP(inr(0, n, o["S"].shape[0]), f))) for lab, f in solved(cast, s, t, p, as_f(o["tol_p"]).v, n)]


REG[(VS, "_vertsolve")] = VSolveCall()


def want_cast(c, S, T, P, n, kind, ref, d0, eos, ppc):
    """the cast problem of a potential / anomaly surface, written out"""
    k = Cast(c, S, T, P, n, None, (), ppc, None)

    def f(x):
        s, t = k.st_at(F(False, x))
        if kind == "potential":
            return fsub(eos(s, t, ref), d0)
        return fsub(eos(s, t, F(False, x)), eos(ref[0], ref[1], F(False, x)), d0)

    k.f = f
    return k


# ------------------------------------------------------------------ kernels, for their callers
class KernelCall(Contract):
    """linear_coeffs_1 / pchip_coeffs_1_nonan as a function of the data: finite for
    every piece of finite data over increasing abscissae (what the units of C05
    prove: `value-at-right`, `numbers`)"""

    def __init__(self, path, func, order):
        self.path, self.func, self.order = path, func, order
        self.params = ["X", "Y"]
        self.fn = ppc_fn(func, order)

    @property
    def unit(self):
        return f"{self.path}:{self.func}"

    def requires(self, c):
        return []

    def result(self, ex, st, c):
        return self.fn.spec(ex, st, [c.raw("X"), c.raw("Y")], {})

    def ensures(self, c):
        return []


REG[("neutralocean/ppinterp/linear.py", "linear_coeffs_1")] = KernelCall("neutralocean/ppinterp/linear.py", "linear_coeffs_1", 2)
REG[("neutralocean/ppinterp/pchip.py", "pchip_coeffs_1_nonan")] = KernelCall("neutralocean/ppinterp/pchip.py", "pchip_coeffs_1_nonan", 4)


# ------------------------------------------------------------------ zero functions
class _Zero(Contract):
    modular = False
    two_s = True

    def cast_args(self, ex, st):
        n = z3.Int("n")
        st.assume(n >= 1)
        C = lambda q: arr(ex, st, q, (n, z3.Int("order")))
        return {"p": fl("p", nan=True), "P": arr(ex, st, "P", (n,)), "Sppc": C("Sppc"), "Tppc": C("Tppc")}

    def requires(self, c):
        n = c["P"].shape[0]
        return [("increasing", increasing(c["P"], 0, n)), ("finite", allok(c["P"], n)), ("order", z3.Int("order") >= 1)]

    def at(self, c):
        return c.app(c.ex.repo_fn(PPI, "ppval_1_nonan_two"), c.old["p"], *[c.ex.params[q] for q in ("P", "Sppc", "Tppc")], 0)

    def ensures(self, c):
        s, t = self.at(c)
        return [("value", feq(c.res, self.want(c, c.old["eos"].scal, s, t)))]


def fsub(*xs):
    out = as_f(xs[0])
    for x in xs[1:]:
        x = as_f(x)
        out = F(OR(out.n, x.n), out.v - x.v)
    return out


@contract
class ZeroPotential(_Zero):
    path, func = VS, "_zero_potential"
    params = ["p", "P", "Sppc", "Tppc", "ref_p", "isoval", "eos"]

    def setup(self, ex, st):
        return {**self.cast_args(ex, st), "ref_p": fl("ref_p", nan=True), "isoval": fl("isoval", nan=True), "eos": ffun("eos", 3)}

    def want(self, c, eos, s, t):
        return fsub(eos(s, t, c.old["ref_p"]), c.old["isoval"])


@contract
class ZeroAnomaly(_Zero):
    path, func = VS, "_zero_anomaly"
    params = ["p", "P", "Sppc", "Tppc", "ref", "isoval", "eos"]

    def setup(self, ex, st):
        return {**self.cast_args(ex, st), "ref": (fl("ref0", nan=True), fl("ref1", nan=True)), "isoval": fl("isoval", nan=True), "eos": ffun("eos", 3)}

    def want(self, c, eos, s, t):
        r = c.old["ref"]
        return fsub(eos(s, t, c.old["p"]), eos(r[0], r[1], c.old["p"]), c.old["isoval"])


@contract
class PotDensDiff(_Zero):
    path, func = TRJ, "_pot_dens_diff"
    params = ["p", "sB", "tB", "pB", "P", "Sppc", "Tppc", "eos"]

    def setup(self, ex, st):
        d = self.cast_args(ex, st)
        return {"p": d.pop("p"), "sB": fl("sB", nan=True), "tB": fl("tB", nan=True), "pB": fl("pB", nan=True), **d, "eos": ffun("eos", 3)}

    def want(self, c, eos, s, t):
        o = c.old
        p, pB = as_f(o["p"]), as_f(o["pB"])
        mid = F(OR(p.n, pB.n), (p.v + pB.v) / 2)
        return fsub(eos(o["sB"], o["tB"], mid), eos(s, t, mid))


# ------------------------------------------------------------------ omega's vertical step
@contract
class VSolveOmega(Contract):
    path, func = VS, "_vertsolve_omega"
    params = ["s", "t", "p", "S", "T", "P", "φ", "tol_p", "eos", "ppc_fn"]

    def setup(self, ex, st):
        N, M = z3.Ints("N M")
        st.assume(z3.And(N >= 0, M >= 0))
        d = {q: arr(ex, st, q, (N,)) for q in "stp"}
        d.update({q: arr(ex, st, q, (N, M)) for q in "STP"})
        d["φ"] = arr(ex, st, "phi", (N,))
        d["tol_p"] = fl("tol_p")
        d["eos"] = ffun("eos", 3, nan="total")
        d["ppc_fn"] = ppc_fn()
        return d

    def requires(self, c):
        S, T, P = c["S"], c["T"], c["P"]
        n = z3.Int("n!c")
        return [("pressure-increases", mono_rows(P, S)), ("t-valid", t_ok(S, T, P)), ("tol", as_f(c["tol_p"]).v >= 0),
                ("surface", forall(n, IMP(AND(inr(0, n, P.shape[0]), NOT(as_f(c["p"][n]).n)), AND(NOT(as_f(c["s"][n]).n), NOT(as_f(c["t"][n]).n)))))]

    modular = False

    def cast(self, c, n):
        o = c.old
        p0 = as_f(o["p"][n])
        e0 = as_f(o["eos"].scal(o["s"][n], o["t"][n], p0))
        tgt = F(OR(e0.n, as_f(o["φ"][n]).n), e0.v + as_f(o["φ"][n]).v)
        k = Cast(c, o["S"], o["T"], o["P"], n, None, (p0, tgt, o["eos"]), o["ppc_fn"], None)
        # the density at the old pressure, relative to the old density plus φ
        def f(x, k=k):
            s, t = k.st_at(F(False, x))
            return fsub(o["eos"].scal(s, t, p0), tgt)
        k.f = f
        return k

    LABS = ("kept", "nan", "inside", "root", "salinity", "temperature")

    def facts(self, c, s, t, p, n):
        o = c.old
        cast = self.cast(c, n)
        ph = as_f(o["φ"][n])
        keep = AND(NOT(ph.n), ph.v == 0)
        sv = dict(solved(cast, s, t, p, as_f(o["tol_p"]).v, n))
        p_, po = as_f(p[n]), as_f(o["p"][n])
        sv["nan"] = AND(IMP(OR(NOT(cast.wide), ph.n, po.n), p_.n),
                        IMP(AND(p_.n, cast.wide, NOT(ph.n), NOT(po.n)), cast.same_sign()))
        out = {"kept": IMP(keep, AND(*[feq(x[n], o[q][n]) for x, q in ((s, "s"), (t, "t"), (p, "p"))]))}
        for q, f in sv.items():
            out[q] = IMP(NOT(keep), f)
        return out

    def ensures(self, c):
        n = z3.Int("n!e")
        f = self.facts(c, c["s"], c["t"], c["p"], n)
        return [(q, forall(n, IMP(inr(0, n, c.old["S"].shape[0]), f[q]))) for q in self.LABS]

    def inv(self, c):
        n = z3.Int("n!e")
        for q in self.LABS:
            yield q, lambda q=q: forall(n, IMP(inr(0, n, c["#next"]), self.facts(c, c["s"], c["t"], c["p"], n)[q]))
        yield "rest", lambda: forall(n, IMP(inr(c["#next"], n, c.old["S"].shape[0]), AND(*[feq(c[q][n], c.old[q][n]) for q in "stp"])))

    def __init__(self):
        self.loops = [LoopSpec(self.inv)]


# ------------------------------------------------------------------ neutral connections
class Conn:
    """the neutral connection from a bottle to a cast, given its valid range"""

    def __init__(self, c, b, S, T, P, k, K, ppc, eos):
        """b: (s, t, p) of the bottle; S, T, P: ArrV of the cast"""
        self.c, self.b, self.eos = c, [as_f(x) for x in b], eos
        self.k, self.K = Z(k), Z(K)
        self.wide = self.K - self.k > 1
        self.p0, self.p1 = as_f(P[self.k]).v, as_f(P[self.K - 1]).v
        sl = lambda A: snap(c, A.slice(self.k, self.K))
        self.Pn = sl(P)
        self.Sc, self.Tc = c.app(ppc, self.Pn, sl(S)), c.app(ppc, self.Pn, sl(T))

    st_at = Cast.st_at
    same_sign = Cast.same_sign
    root = Cast.root

    def f(self, x):
        s, t = self.st_at(F(False, x))
        sB, tB, pB = self.b
        mid = F(pB.n, (x + pB.v) / 2)
        return fsub(self.eos(sB, tB, mid), self.eos(s, t, mid))


CONN = ("nan", "inside", "root", "salinity", "temperature")


def conn_facts(k, s, t, p, tol):
    sB, tB, pB = k.b
    s, t, p = as_f(s), as_f(t), as_f(p)
    ok = NOT(p.n)
    si, ti = k.st_at(p)
    badb = OR(sB.n, tB.n, pB.n)
    out = {
        "nan": AND(IMP(OR(NOT(k.wide), badb), p.n), IMP(AND(p.n, k.wide, NOT(badb)), k.same_sign())),
        "inside": IMP(ok, AND(k.wide, k.p0 <= p.v, p.v <= k.p1)),
        "root": IMP(ok, k.root(p.v, tol)),
        "salinity": AND(IFF(s.n, p.n), IMP(ok, feq(s, si))),
        "temperature": AND(IFF(t.n, p.n), IMP(ok, feq(t, ti))),
    }
    return out


def fn_name(f):
    return getattr(f, "name", None) or getattr(f, "qual", None) or repr(f)


def fres(ex, name):
    n = ex.nm(name)
    return F(z3.Bool(n + ".nan"), z3.Real(n))


class _N2C(Contract):
    path = TRJ

    def bottle(self):
        return {"sB": fl("sB", nan=True), "tB": fl("tB", nan=True), "pB": fl("pB", nan=True)}

    def breq(self, c):
        s, t, p = (as_f(c[q]) for q in ("sB", "tB", "pB"))
        return []


@contract
class BottleCastPpc(_N2C):
    func = "_ntp_bottle_to_cast_ppc"
    params = ["tol_p", "sB", "tB", "pB", "P", "Sppc", "Tppc", "eos"]

    def setup(self, ex, st):
        n = z3.Int("n")
        C = lambda q: arr(ex, st, q, (n, z3.Int("order")))
        return {"tol_p": fl("tol_p"), **self.bottle(), "P": arr(ex, st, "P", (n,)), "Sppc": C("Sppc"), "Tppc": C("Tppc"), "eos": ffun("eos", 3, nan="total")}

    def requires(self, c):
        P = c["P"]
        n = P.shape[0]
        return [("size", Z(n) >= 2), ("same-length", AND(Z(c["Sppc"].shape[0]) == Z(n), Z(c["Tppc"].shape[0]) == Z(n))),
                ("increasing", increasing(P, 0, n)), ("finite", allok(P, n)), ("tol", AND(NOT(as_f(c["tol_p"]).n), as_f(c["tol_p"]).v >= 0)),
                ("coefs", AND(rows_ok(c["Sppc"]), rows_ok(c["Tppc"])))]

    def result(self, ex, st, c):
        """a function of the bottle and the interpolants (the contract says which one)"""
        args, keys = [], []
        for q in ("P", "Sppc", "Tppc"):
            key, par = L.lift(c[q])
            keys.append(key)
            args += par
        for q in ("sB", "tB", "pB", "tol_p"):
            x = as_f(c[q])
            args += [x.v, Z(x.n)]
        keys.append(fn_name(c.raw("eos")))
        args += [Z(c["P"].shape[0])]
        v, n = L.uf("NTPC", "|".join(keys), args, [], [("", _R), (".nan", _B)])
        return F(n, v)

    def conn(self, c):
        k = Conn.__new__(Conn)
        o = c.old
        k.c, k.b, k.eos = c, [as_f(o[q]) for q in ("sB", "tB", "pB")], eos_spec(c, c.raw("eos"))
        P = o["P"]
        k.k, k.K = z3.IntVal(0), Z(P.shape[0])
        k.wide = True
        k.p0, k.p1 = as_f(P[0]).v, as_f(P[SUB(P.shape[0], 1)]).v
        k.Pn, k.Sc, k.Tc = (c.raw(q) for q in ("P", "Sppc", "Tppc"))
        return k

    def ensures(self, c):
        k = self.conn(c)
        p = as_f(c.res)
        si, ti = k.st_at(p)
        f = conn_facts(k, F(OR(p.n, si.n), si.v), F(OR(p.n, ti.n), ti.v), p, as_f(c.old["tol_p"]).v)
        return [(q, f[q]) for q in ("nan", "inside", "root")]


def eos_spec(c, eos):
    if hasattr(eos, "scal"):
        return eos.scal
    return lambda *a: as_f(c.app(eos, *a))


@contract
class BottleCast(_N2C):
    func = "_ntp_bottle_to_cast"
    params = ["sB", "tB", "pB", "S", "T", "P", "k", "K", "tol_p", "eos", "ppc_fn"]

    def setup(self, ex, st):
        n = z3.Int("n")
        st.assume(n >= 0)
        d = self.bottle()
        d.update({q: arr(ex, st, q, (n,)) for q in "STP"})
        d["k"], d["K"], d["tol_p"] = z3.Int("k"), z3.Int("K"), fl("tol_p")
        d["eos"], d["ppc_fn"] = ffun("eos", 3, nan="total"), ppc_fn()
        return d

    def requires(self, c):
        S, T, P, k, K = c["S"], c["T"], c["P"], Z(c["k"]), Z(c["K"])
        n = Z(P.shape[0])
        j, a, b = z3.Ints("j!c a!c b!c")
        return [("range", z3.And(0 <= k, k <= K, K <= n)), ("same-length", AND(Z(S.shape[0]) == n, Z(T.shape[0]) == n)),
                ("valid", forall(j, IMP(inr(k, j, K), AND(ok2(S, P, j), ok1(T, j))))),
                ("pressure-increases", forall([a, b], IMP(AND(k <= a, a < b, b < K), as_f(P[a]).v < as_f(P[b]).v))),
                ("tol", AND(NOT(as_f(c["tol_p"]).n), as_f(c["tol_p"]).v >= 0))]

    def result(self, ex, st, c):
        """a function of the bottle, the cast and its valid range (the contract says
        which one)"""
        args, keys = [], []
        for q in ("S", "T", "P"):
            key, par = L.lift(c["P"] if q == "P" else c[q])
            keys.append(key)
            args += par
        for q in ("sB", "tB", "pB", "tol_p"):
            x = as_f(c[q])
            args += [x.v, Z(x.n)]
        keys += [fn_name(c.raw("eos")), fn_name(c.raw("ppc_fn"))]
        args += [Z(c["k"]), Z(c["K"]), Z(c["P"].shape[0])]
        return tuple(F(n, v) for v, n in [L.uf("NTP" + q, "|".join(keys), args, [], [("", _R), (".nan", _B)]) for q in "stp"])

    def ensures(self, c):
        o = c.old
        k = Conn(c, [o[q] for q in ("sB", "tB", "pB")], o["S"], o["T"], o["P"], o["k"], o["K"], c.raw("ppc_fn"), eos_spec(c, c.raw("eos")))
        f = conn_facts(k, *c.res, as_f(o["tol_p"]).v)
        return [(q, f[q]) for q in CONN]


def kernel(ex, interp):
    return ex.repo_fn(*{"linear": ("neutralocean/ppinterp/linear.py", "linear_coeffs_1"),
                        "pchip": ("neutralocean/ppinterp/pchip.py", "pchip_coeffs_1_nonan")}[interp])


def eos_arg():
    return ffun("eos", 3, nan="total")


def mk_b2c(interp):
    class B2C(_N2C):
        func = "ntp_bottle_to_cast"
        params = ["sB", "tB", "pB", "S", "T", "P", "tol_p", "interp", "eos", "grav", "rho_c"]
        modular = False

        def setup(self, ex, st):
            n = z3.Int("n")
            st.assume(n >= 0)
            d = self.bottle()
            d.update({q: arr(ex, st, q, (n,)) for q in "STP"})
            d.update(tol_p=fl("tol_p"), interp=interp, eos=eos_arg(), grav=None, rho_c=None)
            return d

        def requires(self, c):
            S, T, P = c["S"], c["T"], c["P"]
            j, a, b = z3.Ints("j!c a!c b!c")
            n = P.shape[0]
            return [("valid", forall(j, IMP(AND(inr(0, j, n), ok2(S, P, j)), ok1(T, j)))),
                    ("pressure-increases", forall([a, b], IMP(AND(0 <= a, a < b, b < Z(n), ok2(S, P, a), ok2(S, P, b)), as_f(P[a]).v < as_f(P[b]).v))),
                    ("tol", as_f(c["tol_p"]).v >= 0)]

        def ensures(self, c):
            o = c.old
            k, K = vrange(c, o["S"], o["P"])
            cn = Conn(c, [o[q] for q in ("sB", "tB", "pB")], o["S"], o["T"], o["P"], k, K, kernel(c.ex, interp), o["eos"].scal)
            f = conn_facts(cn, *c.res, as_f(o["tol_p"]).v)
            return [(q, f[q]) for q in CONN]

    B2C.name = f"{TRJ}:ntp_bottle_to_cast[{interp}]"
    contract(B2C)

    mk_traj(interp)


def mk_traj(interp, form=Form(), layout="alias"):
    class Traj(Contract):
        path, func = TRJ, "neutral_trajectory"
        params = ["S", "T", "P", "p0", "vert_dim", "tol_p", "interp", "eos", "grav", "rho_c"]
        modular = False
        options = {"require": layout}

        def setup(self, ex, st):
            N, M = z3.Ints("N M")
            st.assume(z3.And(N >= 1, M >= 0))
            d = form.args(ex, st, N, M)
            d.update(p0=fl("p0", nan=True), vert_dim=form.vert_dim(), tol_p=fl("tol_p"), interp=interp, eos=eos_arg(), grav=None, rho_c=None)
            return d

        def requires(self, c):
            S, T, P = (form.at(c, q) for q in "STP")
            return [("pressure-increases", mono_rows(P, S)), ("t-valid", t_ok(S, T, P)), ("tol", as_f(c["tol_p"]).v >= 0)]

        LABS = ("start", "first") + CONN + ("stop",)

        def facts(self, c, s, t, p, n):
            o = c.old
            S, T, P = (form.at(o, q) for q in "STP")
            kn = kernel(c.ex, interp)
            k0 = Cast(c, S, T, P, z3.IntVal(0), None, (), kn, None)
            s0, t0 = k0.st_at(o["p0"])
            first = AND(*[feq(x[0], F(OR(NOT(k0.wide), as_f(y).n), as_f(y).v)) for x, y in ((s, s0), (t, t0))])
            k, K = vrange(c, S[n], P[n])
            cn = Conn(c, [x[n - 1] for x in (s, t, p)], S[n], T[n], P[n], k, K, kn, o["eos"].scal)
            f = conn_facts(cn, s[n], t[n], p[n], as_f(o["tol_p"]).v)
            out = {q: forall(n, IMP(inr(1, n, self.upto(c)), f[q])) for q in CONN}
            out["start"] = IMP(self.upto(c) > 0, feq(p[0], o["p0"]))
            out["first"] = IMP(self.upto(c) > 0, first)
            out["stop"] = forall(n, IMP(inr(1, n, self.upto(c)), IMP(as_f(p[n - 1]).n, AND(*[as_f(x[n]).n for x in (s, t, p)]))))
            return out

        def upto(self, c):
            return Z(c["#next"]) if c.res is None else Z(form.size(c.old)[0])

        def ensures(self, c):
            f = self.facts(c, *c.res, z3.Int("n!e"))
            return [("shape", AND(*[Z(x.shape[0]) == Z(form.size(c.old)[0]) for x in c.res]))] + [(q, f[q]) for q in self.LABS] + [(q + "-kept", form.kept(c, q)) for q in "STP"]

        def inv(self, c):
            n = z3.Int("n!e")
            N = form.size(c.old)[0]
            for q in self.LABS:
                yield q, lambda q=q: self.facts(c, c["s"], c["t"], c["p"], n)[q]
            yield "rest", lambda: forall(n, IMP(inr(c["#next"], n, N), AND(*[as_f(c[q][n]).n for q in "stp"])))
            yield "alive", lambda: IMP(Z(c["#next"]) > 0, NOT(as_f(c["p"][Z(c["#next"]) - 1]).n))

        def __init__(self):
            self.loops = [LoopSpec(self.inv)]

    Traj.name = f"{TRJ}:neutral_trajectory[{interp}{form}{',copied' if layout == 'copy' else ''}]"
    contract(Traj)


for _q in ("linear", "pchip"):
    mk_b2c(_q)
for _f, _l in ((Form(0), "alias"), (Form(0), "copy"), (Form(-1, P1=True), "alias"), (Form(0, P1=True), "copy"), (Form(-1, lab="STP"), "alias"),
               (Form(0, lab="STP", named=True), "alias"), (Form(0, P1=True, lab="ST"), "alias")):
    mk_traj("linear", _f, _l)
