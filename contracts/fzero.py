"""Contracts of neutralocean/fzero.py"""
from .base import *  # noqa

EPS = z3.RealVal("1/4503599627370496")


def vabs(x):
    return z3.If(x >= 0, x, -x)


def tolr(r, t):
    return 2 * EPS * vabs(r) + t


def fcall(c, x):
    """f(x, *args) in the contract's state"""
    x = as_f(x)
    return c.app(c.raw("f"), x, *c.raw("args"))


def total_on(c, lo, hi):
    """f is not NaN on [lo, hi]"""
    x = z3.Real("x!tot")
    v = fcall(c, F(False, x))
    pats = None
    n = Z(v.n)
    return z3.ForAll([x], z3.Implies(z3.And(lo <= x, x <= hi), z3.Not(n)))


def nan_on(c, lo, hi):
    """f is NaN everywhere on [lo, hi]"""
    x = z3.Real("x!tot")
    v = fcall(c, F(False, x))
    return z3.ForAll([x], z3.Implies(z3.And(lo <= x, x <= hi), Z(v.n)))


def pos(v):
    return AND(NOT(v.n), v.v > 0)


@contract
class Brent(Contract):
    path, func = "neutralocean/fzero.py", "brent"
    params = ["f", "a", "b", "t", "args"]
    options = {"div_var": True, "let_nl": True}

    def setup(self, ex, st):
        return {"f": ffun("f"), "a": fl("a0", nan=True), "b": fl("b0", nan=True), "t": fl("t0"), "args": (Opaque("ARGS"),)}

    def requires(self, c):
        a, b, t = as_f(c["a"]), as_f(c["b"]), as_f(c["t"])
        return [
            ("tol-nonneg", AND(NOT(t.n), t.v >= 0)),
            ("f-total", IMP(AND(NOT(a.n), NOT(b.n)), total_on(c, a.v, b.v))),
        ]

    def result(self, ex, st, c):
        n = ex.nm("root")
        return F(z3.Bool(n + ".nan"), z3.Real(n))

    def ensures(self, c):
        o = c.old
        a, b, t = as_f(o["a"]), as_f(o["b"]), as_f(o["t"])
        fa, fb = fcall(c, a), fcall(c, b)
        r = as_f(c.res)
        bad = OR(a.n, b.n, a.v > b.v)
        nosign = OR(AND(fa.v > 0, fb.v > 0), AND(fa.v < 0, fb.v < 0))
        fr = fcall(c, F(False, r.v))
        z = z3.Real("z!w")
        fz = fcall(c, F(False, z))
        return [
            ("nan-iff-no-bracket", IFF(r.n, OR(bad, nosign))),
            ("inside", IMP(NOT(r.n), AND(a.v <= r.v, r.v <= b.v))),
            ("root", IMP(NOT(r.n), OR(fr.v == 0, z3.Exists([z], z3.And(
                a.v <= z, z <= b.v, vabs(z - r.v) <= 2 * tolr(r.v, t.v), sgn_opp(fr.v, fz.v)))))),
        ]

    def inv(c):
        a0, b0 = as_f(c.old["a"]), as_f(c.old["b"])
        g = lambda nm: (lambda: None)
        yield "b-in", lambda: AND(NOT(c["b"].n), a0.v <= c["b"].v, c["b"].v <= b0.v)
        yield "c-in", lambda: AND(NOT(c["c"].n), a0.v <= c["c"].v, c["c"].v <= b0.v)
        yield "a-in", lambda: AND(NOT(c["a"].n), a0.v <= c["a"].v, c["a"].v <= b0.v)
        yield "fb", lambda: feq(c["fb"], fcall(c, c["b"]))
        yield "fc", lambda: feq(c["fc"], fcall(c, c["c"]))
        yield "fa", lambda: feq(c["fa"], fcall(c, c["a"]))
        yield "notnan", lambda: AND(*[NOT(as_f(c[x]).n) for x in ("fa", "fb", "fc", "d", "e")])
        yield "bracket", lambda: sgn_opp(c["fb"].v, c["fc"].v)

    loops = [LoopSpec(inv)]


@contract
class GuessToBounds(Contract):
    path, func = "neutralocean/fzero.py", "guess_to_bounds"
    params = ["f", "x", "A", "B", "args"]

    def setup(self, ex, st):
        return {"f": ffun("f"), "x": fl("x0", nan=True), "A": fl("A0", nan=True), "B": fl("B0", nan=True), "args": (Opaque("ARGS"),)}

    def requires(self, c):
        A, B, x = as_f(c["A"]), as_f(c["B"]), as_f(c["x"])
        ok = AND(NOT(A.n), NOT(B.n))
        return [
            ("range", IMP(ok, A.v <= B.v)),
            ("f-total", IMP(AND(ok, NOT(x.n)), OR(total_on(c, A.v, B.v), nan_on(c, A.v, B.v)))),
        ]

    def result(self, ex, st, c):
        n, m = ex.nm("lb"), ex.nm("ub")
        return (F(z3.Bool(n + ".nan"), z3.Real(n)), F(z3.Bool(m + ".nan"), z3.Real(m)))

    def ensures(self, c):
        A, B, x = as_f(c.old["A"]), as_f(c.old["B"]), as_f(c.old["x"])
        bad = OR(A.n, B.n, x.n)
        a, b = (as_f(v) for v in c.res)
        fA, fB = fcall(c, A), fcall(c, B)
        fa, fb = fcall(c, F(False, a.v)), fcall(c, F(False, b.v))
        ok = AND(NOT(a.n), NOT(b.n))
        return [
            ("both-or-none", IFF(a.n, b.n)),
            ("nested", IMP(ok, AND(A.v <= a.v, a.v <= b.v, b.v <= B.v))),
            ("sign-change", IMP(ok, OR(AND(a.v == b.v, fa.v == 0), NOT(IFF(fa.v > 0, fb.v > 0))))),
            ("nan-if-bad-input", IMP(bad, a.n)),
            ("nan-if-f-nan", IMP(AND(NOT(bad), fA.n), a.n)),
            ("nan-only-if-same-sign", IMP(AND(a.n, NOT(bad), NOT(fA.n)), AND(fA.v != 0, fB.v != 0, IFF(fA.v > 0, fB.v > 0)))),
        ]

    def inv(c):
        A, B = as_f(c.old["A"]), as_f(c.old["B"])
        a, b, x = (lambda: as_f(c["a"])), (lambda: as_f(c["b"])), (lambda: as_f(c["x"]))
        yield "order", lambda: AND(NOT(a().n), NOT(b().n), NOT(x().n), A.v <= a().v, a().v <= x().v, x().v <= b().v, b().v <= B.v)
        yield "steps", lambda: AND(NOT(as_f(c["dxm"]).n), NOT(as_f(c["dxp"]).n), as_f(c["dxm"]).v >= 0, as_f(c["dxp"]).v >= 0)
        yield "fapos", lambda: IMP(c.isdef("fapos"), IFF(c["fapos"], pos(fcall(c, a()))))
        yield "fbpos", lambda: IMP(c.isdef("fbpos"), IFF(c["fbpos"], pos(fcall(c, b()))))
        yield "fbpos-def", lambda: IMP(a().v > A.v, c.isdef("fbpos"))
        yield "fapos-def", lambda: IMP(a().v == A.v, c.isdef("fapos"))
        yield "both-def", lambda: IMP(AND(a().v == A.v, b().v == B.v), AND(c.isdef("fapos"), c.isdef("fbpos")))

    loops = [LoopSpec(inv)]


@contract
class BrentGuess(Contract):
    path, func = "neutralocean/fzero.py", "brent_guess"
    params = ["f", "x", "A", "B", "t", "args"]

    def setup(self, ex, st):
        return {"f": ffun("f"), "x": fl("x0", nan=True), "A": fl("A0", nan=True), "B": fl("B0", nan=True), "t": fl("t0"), "args": (Opaque("ARGS"),)}

    def requires(self, c):
        A, B, x, t = as_f(c["A"]), as_f(c["B"]), as_f(c["x"]), as_f(c["t"])
        ok = AND(NOT(A.n), NOT(B.n))
        return [
            ("range", IMP(ok, A.v <= B.v)),
            ("tol-nonneg", AND(NOT(t.n), t.v >= 0)),
            ("f-total", IMP(ok, total_on(c, A.v, B.v))),
        ]

    def result(self, ex, st, c):
        n = ex.nm("root")
        return F(z3.Bool(n + ".nan"), z3.Real(n))

    def ensures(self, c):
        A, B, t = as_f(c.old["A"]), as_f(c.old["B"]), as_f(c.old["t"])
        r, x = as_f(c.res), as_f(c.old["x"])
        bad = OR(A.n, B.n, x.n)
        fA, fB = fcall(c, A), fcall(c, B)
        fr = fcall(c, F(False, r.v))
        z = z3.Real("z!w")
        fz = fcall(c, F(False, z))
        return [
            ("nan-if-bad-input", IMP(bad, r.n)),
            ("nan-only-if-same-sign", IMP(AND(r.n, NOT(bad)), AND(fA.v != 0, fB.v != 0, IFF(fA.v > 0, fB.v > 0)))),
            ("inside", IMP(NOT(r.n), AND(A.v <= r.v, r.v <= B.v))),
            ("root", IMP(NOT(r.n), OR(fr.v == 0, z3.Exists([z], z3.And(
                A.v <= z, z <= B.v, vabs(z - r.v) <= 2 * tolr(r.v, t.v), sgn_opp(fr.v, fz.v)))))),
        ]
