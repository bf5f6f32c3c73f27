"""Contracts of neutralocean/ppinterp/pchip.py"""
from .base import *  # noqa
from .ppi import ok1, ok2, vr_spec, increasing, LIB, pval_app

PCH = "neutralocean/ppinterp/pchip.py"


def dx_(X, i):
    return as_f(X[i + 1]).v - as_f(X[i]).v


def del_(X, Y, i):
    return (as_f(Y[i + 1]).v - as_f(Y[i]).v) / dx_(X, i)


def interior(d, h0, h1, s0, s1):
    """weighted harmonic mean of the neighbouring slopes, 0 at a local extremum"""
    w1, w2 = h0 + 2 * h1, 2 * h0 + h1
    same = z3.Or(z3.And(s0 > 0, s1 > 0), z3.And(s0 < 0, s1 < 0))
    return z3.And(z3.Implies(same, d == (w1 + w2) / (w1 / s0 + w2 / s1)), z3.Implies(z3.Not(same), d == 0))


def sg(x):
    return z3.If(x > 0, 1, z3.If(x < 0, -1, 0))


def av(x):
    return z3.If(x >= 0, x, -x)


def endpoint(d, h0, h1, s0, s1):
    """one-sided three-point formula, limited to preserve shape.
    (h0, s0): the end interval, (h1, s1): its neighbour"""
    e = z3.Real("e!end")
    raw = ((2 * h0 + h1) * s0 - h0 * s1) / (h0 + h1)
    return d == z3.If(sg(raw) != sg(s0), z3.RealVal(0), z3.If(z3.And(sg(s0) != sg(s1), av(raw) > 3 * av(s0)), 3 * s0, raw))


def slope_spec(d, X, Y, k, K, i):
    """d is the slope of the interpolant of (X, Y)[k:K] at data site i (K-k > 2)"""
    i, k, K = Z(i), Z(k), Z(K)
    h, s = (lambda j: dx_(X, j)), (lambda j: del_(X, Y, j))
    return z3.And(
        z3.Implies(i == k, endpoint(d, h(k), h(k + 1), s(k), s(k + 1))),
        z3.Implies(i == K - 1, endpoint(d, h(K - 2), h(K - 3), s(K - 2), s(K - 3))),
        z3.Implies(z3.And(i > k, i < K - 1), interior(d, h(i - 1), h(i), s(i - 1), s(i))),
    )


def hermite(c, X, Y, i, d0, d1):
    """c = (c3, c2, c1, c0) is the cubic with values Y[i], Y[i+1] and slopes d0, d1"""
    h, s = dx_(X, i), del_(X, Y, i)
    c3, c2, c1, c0 = c
    a = (s - d0) / h
    b = (d1 - s) / h
    return z3.And(c0 == as_f(Y[i]).v, c1 == d0, c2 == 2 * a - b, c3 == (b - a) / h)


@contract
class Pchip1(Contract):
    path, func = PCH, "_pchip_coeffs_1"
    params = ["X", "Y", "k", "K"]
    options = {"timeout": 20}

    def setup(self, ex, st):
        n = z3.Int("n")
        return {"X": arr(ex, st, "X", (n,)), "Y": arr(ex, st, "Y", (n,)), "k": z3.Int("k"), "K": z3.Int("K")}

    def requires(self, c):
        X, Y, k, K = c["X"], c["Y"], Z(c["k"]), Z(c["K"])
        n = Z(X.shape[0])
        j = z3.Int("j!p")
        return [
            ("same-length", Z(X.shape[0]) == Z(Y.shape[0])),
            ("range", z3.And(0 <= k, k <= K, K <= n)),
            ("valid", forall(j, IMP(z3.And(k <= j, j < K), ok2(X, Y, j)))),
            ("increasing", increasing(X, k, K)),
        ]

    def result(self, ex, st, c):
        return ex.fresh_arr(st, "Cpch", (c.old["X"].shape[0], 4), "f", True)

    def ensures(self, c):
        X, Y, k, K, C = c.old["X"], c.old["Y"], Z(c.old["k"]), Z(c.old["K"]), c.res
        n = Z(X.shape[0])
        i = z3.Int("i!p")
        cs = [as_f(C[i, j]) for j in range(4)]
        many = K - k > 2
        vs = [q.v for q in cs]
        nn = AND(*[NOT(q.n) for q in cs])
        D = lambda j: as_f(C[j, 2]).v
        h = dx_(X, i)
        dend = (3 * vs[0] * h + 2 * vs[1]) * h + vs[2]
        return [
            ("shape", AND(Z(C.shape[0]) == n, Z(C.shape[1]) == 4)),
            ("data", forall(i, IMP(z3.And(0 <= i, i < n), feq(cs[3], Y[i])))),
            ("numbers", forall(i, IMP(z3.And(k <= i, i < K - 1), nn))),
            ("slopes", forall(i, IMP(z3.And(many, k <= i, i < K - 1), slope_spec(vs[2], X, Y, k, K, i)))),
            ("cubic", forall(i, IMP(z3.And(many, k <= i, i < K - 2), hermite(vs, X, Y, i, D(i), D(i + 1))))),
            ("last-cubic", IMP(many, self.last(c))),
            ("two-points", IMP(K - k == 2, AND(*[as_f(C[k, j]).v == 0 for j in (0, 1)], as_f(C[k, 2]).v == del_(X, Y, k)))),
            ("nan-elsewhere", forall(i, IMP(AND(0 <= i, i < n, OR(i < k, i >= K - 1)), AND(*[q.n for q in cs[:3]])))),
        ]

    def last(self, c):
        X, Y, k, K, C = c.old["X"], c.old["Y"], Z(c.old["k"]), Z(c.old["K"]), c.res
        i = K - 2
        vs = [as_f(C[i, j]).v for j in range(4)]
        d = z3.Real("d!last")
        return exists_w(c, d, lambda w: z3.And(slope_spec(w, X, Y, k, K, K - 1), hermite(vs, X, Y, i, vs[2], w)),
                        lambda L: as_f(L["d"][K - 1]).v)

    def inv0(c):
        X, Y, k, K = c.old["X"], c.old["Y"], Z(c.old["k"]), Z(c.old["K"])
        i = z3.Int("i!p")
        yield "done", lambda: forall(i, IMP(z3.And(k <= i, i < Z(c["#next"])), AND(NOT(as_f(c["d"][i]).n), IMP(i < K - 1, slope_spec(as_f(c["d"][i]).v, X, Y, k, K, i)))))

    def inv1(c):
        X, Y, k, K = c.old["X"], c.old["Y"], Z(c.old["k"]), Z(c.old["K"])
        i = z3.Int("i!p")

        def body():
            C = c["C"]
            cs = [as_f(C[i, j]) for j in range(3)]
            d = c["d"]
            return forall(i, IMP(z3.And(k <= i, i < Z(c["#next"])), AND(
                *[NOT(q.n) for q in cs], hermite([q.v for q in cs] + [as_f(Y[i]).v], X, Y, i, as_f(d[i]).v, as_f(d[i + 1]).v))))

        yield "rows", body

        def rest():
            C = c["C"]
            return forall(i, IMP(AND(0 <= i, i < Z(X.shape[0]), OR(i < k, i >= Z(c["#next"]))), AND(*[as_f(C[i, j]).n for j in range(4)])))

        yield "rest", rest

    loops = [LoopSpec(inv0), LoopSpec(inv1)]


@contract
class PchipI(Contract):
    """the on-the-fly piece equals the row of the full coefficient array"""

    path, func = PCH, "_pchip_coeffs_i"
    params = ["X", "Y", "i"]
    options = {"timeout": 20}

    def setup(self, ex, st):
        n = z3.Int("n")
        self.k, self.K = z3.Ints("k K")
        return {"X": arr(ex, st, "X", (n,)), "Y": arr(ex, st, "Y", (n,)), "i": z3.Int("i")}

    def requires(self, c):
        X, Y, i = c["X"], c["Y"], Z(c["i"])
        k, K = self.kK(c)
        n = Z(X.shape[0])
        return [
            ("same-length", Z(X.shape[0]) == Z(Y.shape[0])),
            ("piece", z3.Exists([k, K], z3.And(*[Z(f) for _, f in vr_spec(X, Y, k, K, n)], k <= i, i < K - 1, increasing(X, k, K)))) if c.frame is not None and False else
            ("piece", AND(*[f for _, f in vr_spec(X, Y, k, K, n)], k <= i, i < K - 1, increasing(X, k, K))),
        ][:2]

    def kK(self, c):
        return z3.Ints("k K")

    def result(self, ex, st, c):
        out = []
        for q in ("C3", "C2", "C1", "C0"):
            a = ex.nm(q)
            out.append(F(z3.Bool(a + ".nan"), z3.Real(a)))
        return tuple(out)

    modular = False

    def ensures(self, c):
        X, Y, i = c.old["X"], c.old["Y"], Z(c.old["i"])
        k, K = self.kK(c)
        cs = [as_f(q) for q in c.res]
        vs = [q.v for q in cs]
        d1 = z3.Real("d!r")
        many = K - k > 2
        return [
            ("numbers", AND(*[NOT(q.n) for q in cs])),
            ("data", cs[3].v == as_f(Y[i]).v),
            ("slope", IMP(many, slope_spec(vs[2], X, Y, k, K, i))),
            ("cubic", IMP(many, exists_w(c, d1, lambda w: z3.And(slope_spec(w, X, Y, k, K, i + 1), hermite(vs, X, Y, i, vs[2], w)),
                                         lambda L: as_f(L["d"][1]).v))),
            ("two-points", IMP(K - k == 2, AND(vs[0] == 0, vs[1] == 0, vs[2] == del_(X, Y, i)))),
        ]


@contract
class PchipCoeffs1Nonan(Contract):
    path, func = PCH, "pchip_coeffs_1_nonan"
    params = ["X", "Y"]

    def setup(self, ex, st):
        n = z3.Int("n")
        return {"X": arr(ex, st, "X", (n,)), "Y": arr(ex, st, "Y", (n,))}

    def full(self, c, k, K):
        d = dict(c.old)
        d["k"], d["K"] = k, K
        c2 = Ctx(c.ex, c.st, old=d, res=c.res)
        return Pchip1().ensures(c2)

    def requires(self, c):
        X, Y = c["X"], c["Y"]
        n = Z(X.shape[0])
        j = z3.Int("j!p")
        return [
            ("same-length", n == Z(Y.shape[0])), ("size", n >= 0),
            ("valid", forall(j, IMP(z3.And(0 <= j, j < n), ok2(X, Y, j)))),
            ("increasing", increasing(X, 0, n)),
        ]

    def result(self, ex, st, c):
        return ex.fresh_arr(st, "Cpch", (c.old["X"].shape[0], 4), "f", True)

    def ensures(self, c):
        return self.full(c, z3.IntVal(0), Z(c.old["X"].shape[0]))


@contract
class PchipCoeffs1(PchipCoeffs1Nonan):
    func = "pchip_coeffs_1"

    def requires(self, c):
        X, Y = c["X"], c["Y"]
        n = Z(X.shape[0])
        a, b = z3.Ints("a!s b!s")
        return [
            ("same-length", n == Z(Y.shape[0])), ("size", n >= 0),
            ("increasing", z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n, Z(ok1(X, a)), Z(ok1(X, b))), as_f(X[a]).v < as_f(X[b]).v))),
        ]

    def ensures(self, c):
        k, K = z3.Ints("k!v K!v")
        if c.locals is not None:
            # the local (k, K) is the block; the block is unique (lemma:valid-range-unique)
            try:
                k, K = Z(c.locals["k"]), Z(c.locals["K"])
                return [("block-" + l, f) for l, f in vr_spec(c.old["X"], c.old["Y"], k, K, c.old["X"].shape[0])] + self.full(c, k, K)
            except (KeyError, TypeError, AttributeError):
                k, K = z3.Ints("k!v K!v")
        hyp = AND(*[f for _, f in vr_spec(c.old["X"], c.old["Y"], k, K, c.old["X"].shape[0])])
        return [(l, z3.ForAll([k, K], z3.Implies(hyp, Z(f)))) for l, f in self.full(c, k, K)]


@contract
class PchipShape(Lemma):
    func = name = "lemma:pchip-shape-preserving"
    options = {"timeout": 60}

    def lemmas(self):
        d, h0, h1, s0, s1 = z3.Reals("d h0 h1 s0 s1")
        pos = [h0 > 0, h1 > 0]
        lim = lambda d, s: z3.And(z3.Implies(s >= 0, z3.And(0 <= d, d <= 3 * s)), z3.Implies(s <= 0, z3.And(3 * s <= d, d <= 0)))
        w1, w2 = h0 + 2 * h1, 2 * h0 + h1
        # the harmonic mean lies between 0 and 3*min, in cleared form
        q0, q1, q = z3.Reals("q0 q1 q")
        cl = pos + [q0 * s0 == w1, q1 * s1 == w2, d * (q0 + q1) == w1 + w2]
        yield "interior-left", cl + [s0 > 0, s1 > 0], lim(d, s0)
        yield "interior-right", cl + [s0 > 0, s1 > 0], lim(d, s1)
        yield "interior-left-neg", cl + [s0 < 0, s1 < 0], lim(d, s0)
        yield "interior-right-neg", cl + [s0 < 0, s1 < 0], lim(d, s1)
        yield "extremum", [d == 0], z3.And(lim(d, s0), lim(d, s1))
        raw = z3.Real("raw")
        yield "endpoint", pos + [raw * (h0 + h1) == (2 * h0 + h1) * s0 - h0 * s1,
            d == z3.If(sg(raw) != sg(s0), z3.RealVal(0), z3.If(z3.And(sg(s0) != sg(s1), av(raw) > 3 * av(s0)), 3 * s0, raw))], lim(d, s0)
        # a cubic piece whose end slopes are within the limits is monotone.
        # u in [0,1]: position in the piece, derivative in units of s
        t, h, s, c3, c2, d0, d1 = z3.Reals("t h s c3 c2 d0 d1")
        a, b, u = z3.Reals("a b u")
        yield "monotone", [0 <= a, a <= 3, 0 <= b, b <= 3, 0 <= u, u <= 1], (
            a + 2 * (3 - 2 * a - b) * u + 3 * (a + b - 2) * u * u >= 0)
        # ... and that expression is the derivative (rational identity)
        al, be = d0 / s, d1 / s
        A, B = (s - d0) / h, (d1 - s) / h
        C2, C3 = 2 * A - B, (B - A) / h
        yield "derivative-form", [h != 0, s != 0], (
            d0 + 2 * C2 * t + 3 * C3 * t * t == s * (al + 2 * (3 - 2 * al - be) * (t / h) + 3 * (al + be - 2) * (t / h) * (t / h)))
        # value and slope at the right end of a piece
        y0, y1 = z3.Reals("y0 y1")
        sl = (y1 - y0) / h
        A2, B2 = (sl - d0) / h, (d1 - sl) / h
        yield "right-value", [h != 0], ((((B2 - A2) / h) * h + (2 * A2 - B2)) * h + d0) * h + y0 == y1
        yield "right-slope", [h != 0], (3 * ((B2 - A2) / h) * h + 2 * (2 * A2 - B2)) * h + d0 == d1
