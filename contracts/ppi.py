"""Contracts of neutralocean/ppinterp/{lib,linear,ppinterp}.py"""
from .base import *  # noqa
from vpy import lift as L

LIB = "neutralocean/ppinterp/lib.py"
LIN = "neutralocean/ppinterp/linear.py"
PPI = "neutralocean/ppinterp/ppinterp.py"


def ok1(X, i):
    return NOT(as_f(X[i]).n)


def ok2(X, Y, i):
    return AND(ok1(X, i), ok1(Y, i))


def vr_spec(X, Y, k, K, n):
    """(k, K) delimits the first contiguous block of valid data"""
    k, K, n = Z(k), Z(K), Z(n)
    j = z3.Int("j!vr")
    good = (lambda i: ok2(X, Y, i)) if Y is not None else (lambda i: ok1(X, i))
    return [
        ("order", z3.And(0 <= k, k <= K, K <= n)),
        ("none", z3.Implies(k == n, K == n)),
        ("block", z3.Implies(k < n, k < K)),
        ("before", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), Z(NOT(good(j)))))),
        ("inside", z3.ForAll([j], z3.Implies(z3.And(k <= j, j < K), Z(good(j))))),
        ("stop", z3.Implies(K < n, Z(NOT(good(K))))),
    ]


def vr_inv0(two):
    def inv(c):
        good = (lambda i: ok2(c["X"], c["Y"], i)) if two else (lambda i: ok1(c["X"], i))
        j = z3.Int("j!i")
        n = lambda: c.old["X"].shape[0]
        yield "kK", lambda: AND(Z(c["k"]) == n(), Z(c["K"]) == n())
        yield "bad", lambda: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(c["#next"])), Z(NOT(good(j)))))

    return inv


def vr_inv1(two):
    def inv(c):
        good = (lambda i: ok2(c["X"], c["Y"], i)) if two else (lambda i: ok1(c["X"], i))
        j = z3.Int("j!i")
        n = lambda: c.old["X"].shape[0]
        yield "K", lambda: Z(c["K"]) == n()
        yield "good", lambda: z3.ForAll([j], z3.Implies(z3.And(Z(c["k"]) < j, j < Z(c["#next"]), j < n()), Z(good(j))))

    return inv


class _VR(Contract):
    path = LIB
    two = True

    def setup(self, ex, st):
        n = z3.Int("n")
        st.assume(n >= 0)
        d = {"X": arr(ex, st, "X", (n,))}
        if self.two:
            d["Y"] = arr(ex, st, "Y", (n,))
        return d

    def requires(self, c):
        if self.two:
            return [("same-length", Z(c["X"].shape[0]) == Z(c["Y"].shape[0]))]
        return []

    def result(self, ex, st, c):
        # a function of where the data are valid, and of their number
        try:
            i = L.can(1)
            bad = OR(as_f(c["X"][i]).n, as_f(c["Y"][i]).n) if self.two else as_f(c["X"][i]).n
            key, par = L.lift_term(bad)
            return tuple(L.uf("VR", key, par, [c["X"].shape[0]], [(".k", z3.IntSort()), (".K", z3.IntSort())]))
        except Unsupported:
            return (z3.Int(ex.nm("k")), z3.Int(ex.nm("K")))

    def ensures(self, c):
        k, K = c.res
        return vr_spec(c.old["X"], c.old["Y"] if self.two else None, k, K, c.old["X"].shape[0])


@contract
class ValidRange1Two(_VR):
    func = "valid_range_1_two"
    params = ["X", "Y"]
    loops = [LoopSpec(vr_inv0(True)), LoopSpec(vr_inv1(True))]


@contract
class ValidRange1(_VR):
    func = "valid_range_1"
    params = ["X"]
    two = False
    loops = [LoopSpec(vr_inv0(False)), LoopSpec(vr_inv1(False))]


@contract
class Diff(Contract):
    path, func = LIB, "diff_1d_samesize"
    params = ["x"]

    def setup(self, ex, st):
        n = z3.Int("n")
        st.assume(n >= 0)
        return {"x": arr(ex, st, "x", (n,))}

    def result(self, ex, st, c):
        x = c.old["x"]
        n = x.shape[0]

        def get(idx):
            i = Z(idx[0])
            a, b = as_f(x[i]), as_f(x[i + 1])
            return F(OR(i >= Z(n) - 1, a.n, b.n), b.v - a.v)

        return ex.new_arr(st, Content((n,), "f", get))

    def ensures(self, c):
        x, d = c.old["x"], c.res
        n = x.shape[0]
        i = z3.Int("i!d")
        a, b, r = as_f(x[i]), as_f(x[i + 1]), as_f(d[i])
        if d is None:
            return []
        return [
            ("length", Z(d.shape[0]) == Z(n)),
            ("diff", forall(i, IMP(z3.And(0 <= i, i < Z(n) - 1), feq(r, F(OR(a.n, b.n), b.v - a.v))))),
            ("last-nan", IMP(Z(n) > 0, as_f(d[SUB(n, 1)]).n)),
        ]

    def inv(c):
        x = c.old["x"]
        i = z3.Int("i!d")
        a, b = as_f(x[i]), as_f(x[i + 1])
        yield "done", lambda: forall(i, IMP(z3.And(0 <= i, i < Z(c["#next"])), feq(c["d"][i], F(OR(a.n, b.n), b.v - a.v))))

    loops = [LoopSpec(inv)]


@contract
class LinearCoeffs1(Contract):
    path, func = LIN, "linear_coeffs_1"
    params = ["X", "Y"]
    numba = True

    def setup(self, ex, st):
        n = z3.Int("n")
        st.assume(n >= 0)
        return {"X": arr(ex, st, "X", (n,)), "Y": arr(ex, st, "Y", (n,))}

    def requires(self, c):
        return [("same-length", Z(c["X"].shape[0]) == Z(c["Y"].shape[0]))]

    def result(self, ex, st, c):
        return ex.fresh_arr(st, "Clin", (c.old["Y"].shape[0], 2), "f", True)

    def ensures(self, c):
        X, Y, C = c.old["X"], c.old["Y"], c.res
        n = Z(Y.shape[0])
        i = z3.Int("i!l")
        xa, xb, ya, yb = as_f(X[i]), as_f(X[i + 1]), as_f(Y[i]), as_f(Y[i + 1])
        C0, C1 = as_f(C[i, 0]), as_f(C[i, 1])
        ok = AND(NOT(xa.n), NOT(xb.n), NOT(ya.n), NOT(yb.n), xa.v < xb.v)
        return [
            ("shape", AND(Z(C.shape[0]) == n, Z(C.shape[1]) == 2)),
            ("value-at-left", forall(i, IMP(z3.And(0 <= i, i < n), feq(C1, ya)))),
            ("value-at-right", forall(i, IMP(AND(0 <= i, i < n - 1, ok), AND(NOT(C0.n), NOT(C1.n), C0.v * (xb.v - xa.v) + C1.v == yb.v)))),
        ]


@contract
class LinearCoeffsI(Contract):
    path, func = LIN, "_linear_coeffs_i"
    params = ["X", "Y", "i"]
    check_div = True

    def setup(self, ex, st):
        n, i = z3.Int("n"), z3.Int("i")
        return {"X": arr(ex, st, "X", (n,)), "Y": arr(ex, st, "Y", (n,)), "i": i}

    def requires(self, c):
        X, Y, i = c["X"], c["Y"], Z(c["i"])
        n = Z(X.shape[0])
        return [
            ("same-length", Z(X.shape[0]) == Z(Y.shape[0])),
            ("piece", z3.And(0 <= i, i < n - 1)),
            ("increasing", AND(ok2(X, Y, i), ok1(X, i + 1), as_f(X[i]).v < as_f(X[i + 1]).v)),
        ]

    def result(self, ex, st, c):
        a, b = ex.nm("C1"), ex.nm("C0")
        return (F(z3.Bool(a + ".nan"), z3.Real(a)), F(z3.Bool(b + ".nan"), z3.Real(b)))

    def ensures(self, c):
        X, Y, i = c.old["X"], c.old["Y"], Z(c.old["i"])
        C1, C0 = (as_f(x) for x in c.res)
        xa, xb, ya, yb = as_f(X[i]), as_f(X[i + 1]), as_f(Y[i]), as_f(Y[i + 1])
        return [
            ("left", feq(C0, ya)),
            ("right", IMP(NOT(yb.n), AND(NOT(C1.n), C1.v * (xb.v - xa.v) + C0.v == yb.v))),
        ]


# ------------------------------------------------------------------ evaluation
def poly(dx, C, d):
    """d-th derivative of sum_j C[j] dx^(m-1-j), written out"""
    m = len(C)
    out = None
    for j, cj in enumerate(C):
        e = m - 1 - j
        f = 1
        for q in range(d):
            f *= e - q
        if e < d or f == 0:
            continue
        t = cj * f
        for _ in range(e - d):
            t = t * dx
        out = t if out is None else out + t
    return out if out is not None else z3.RealVal(0)


def pv(m, d):
    return z3.Function(f"pval{m}d{d}", *([z3.RealSort()] * (m + 2)))


def row(C, m):
    if isinstance(C, (tuple, list)):
        return [as_f(x) for x in C]
    return [as_f(C[j]) for j in range(m)]


def pval_app(x, cs, d):
    """the value of pval(x, cs, d): an uninterpreted symbol for callers, the
    polynomial in pval's own contract (units pval[m,d])"""
    m = len(cs)
    n = OR(x.n, *[q.n for q in cs]) if d == 0 else OR(x.n, *[q.n for q in cs[: max(m - d, 0)]])
    if d >= m:
        return F(False, z3.RealVal(0))
    if d == m - 1:
        n = cs[0].n if d > 0 else n
    f = z3.Function(f"pval_m{m}_d{d}", *([z3.RealSort()] * (m + 2)))
    return F(n, f(x.v, *[q.v for q in cs]))


class PvalM(Contract):
    """call side of pval: used by every caller"""

    path, func = PPI, "pval"
    name = PPI + ":pval"
    params = ["x", "C", "d"]

    def setup(self, ex, st):
        raise Unsupported("see pval[m,d]")

    def requires(self, c):
        return []

    def result(self, ex, st, c):
        C = c.raw("C")
        C = c["C"]
        if isinstance(C, (tuple, list)):
            m = len(C)
        else:
            m = C.shape[0]
        d = c["d"]
        if not isinstance(m, int) or not isinstance(d, int) or d < 0 or m < 1:
            raise Unsupported("pval: symbolic order or derivative")
        return pval_app(as_f(c["x"]), row(C, m), d)

    def ensures(self, c):
        return []


REG[(PPI, "pval")] = PvalM()


def _mk_pval(m, d, tup):
    class Pv(Contract):
        path, func = PPI, "pval"
        name = f"{PPI}:pval[order={m},d={d},{'tuple' if tup else 'array'}]"
        modular = False
        unroll = 8

        def setup(self, ex, st):
            x = fl("x", nan=True)
            if tup:
                C = tuple(fl(f"c{j}", nan=True) for j in range(m))
            else:
                C = arr(ex, st, "C", (m,))
            return {"x": x, "C": C, "d": d}

        def ensures(self, c):
            x, cs = as_f(c.old["x"]), row(c.old["C"], m)
            r = as_f(c.res)
            want = pval_app(x, cs, d)
            return [
                ("nan", IFF(r.n, want.n) if d < m - 1 else IMP(AND(NOT(x.n), NOT(want.n)), NOT(r.n))),
                ("polynomial", IMP(AND(NOT(r.n), *[NOT(q.n) for q in cs]), r.v == poly(x.v, [q.v for q in cs], d))),
            ]

    UNITS.append(Pv())


for _m in range(1, 9):
    for _d in range(0, min(_m, 6) + 1):
        _mk_pval(_m, _d, False)
for _m in (2, 4, 6):
    for _d in (0, 1, 2, 3):
        _mk_pval(_m, _d, True)


def increasing(X, lo, hi):
    """X[lo:hi] is strictly increasing"""
    a, b = z3.Ints("a!s b!s")
    va, vb = as_f(X[a]), as_f(X[b])
    return z3.ForAll([a, b], z3.Implies(z3.And(Z(lo) <= a, a < b, b < Z(hi)), va.v < vb.v))


def seg_spec(X, k, K, i, x):
    """i is the piece of X[k:K] that holds x: X[i] < x <= X[i+1], or the first"""
    i = Z(i)
    return AND(
        Z(k) <= i, i <= Z(K) - 2,
        as_f(X[i]).v <= x, x <= as_f(X[i + 1]).v,
        IMP(i > Z(k), as_f(X[i]).v < x),
    )


def ppval_result(c, X, k, K, x, Cs, d):
    """evaluation spec: NaN outside, else polynomial of the piece that holds x"""
    raise NotImplementedError


class _PPVal(Contract):
    path = PPI
    m, two, nonan, d = 4, True, False, 0
    modular = False

    def setup(self, ex, st):
        n = z3.Int("n")
        st.assume(n >= 1)
        nan = not self.nonan
        out = {"x": fl("x", nan=True), "X": arr(ex, st, "X", (n,), nan=nan), "Yppc": arr(ex, st, "Yppc", (n, self.m))}
        if self.two:
            out["Zppc"] = arr(ex, st, "Zppc", (n, self.m))
        out["d"] = self.d
        return out

    def requires(self, c):
        X, C = c["X"], c["Yppc"]
        n = Z(X.shape[0])
        a, b = z3.Ints("a!s b!s")
        ok = (lambda i: True) if self.nonan else (lambda i: AND(ok1(X, i), ok1(C[i], self.m - 1)))
        j = z3.Int("j!s")
        out = [("nonempty", n >= 1)]
        # increasing on every run of valid data (all that is used is the first one)
        if self.nonan:
            out.append(("increasing", increasing(X, 0, n)))
        else:
            out.append(("increasing", z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n, Z(NOT(as_f(X[a]).n)), Z(NOT(as_f(X[b]).n))), as_f(X[a]).v < as_f(X[b]).v))))
        return out

    def ensures(self, c):
        X, x = c.old["X"], as_f(c.old["x"])
        n = Z(X.shape[0])
        m = self.m
        Y = c.old["Yppc"]
        res = c.res if isinstance(c.res, tuple) else (c.res,)
        Cs = [Y] + ([c.old["Zppc"]] if self.two else [])
        out = []
        i = z3.Int("i!seg")
        if self.nonan:
            ranges = [(z3.IntVal(0), n, True)]
            inside = AND(NOT(x.n), as_f(X[0]).v <= x.v, x.v <= as_f(X[n - 1]).v)
            k, K = z3.IntVal(0), n
            many = n >= 2
            hyp = True
        else:
            k, K = z3.Ints("k!v K!v")
            yl = ArrV(Y.content, (n,), lambda j, Y=Y: Y.imap((j[0], m - 1)) if Y.imap else (j[0], m - 1))
            hyp = AND(*[f for _, f in vr_spec(X, yl, k, K, n)])
            many = k < K - 1
            inside = AND(NOT(x.n), k < K - 1, as_f(X[k]).v <= x.v, x.v <= as_f(X[K - 1]).v)
        for nm, r, C in zip("yz", res, Cs):
            r = as_f(r)
            w = pval_app(F(x.n, x.v - as_f(X[i]).v), [as_f(C[i, j]) for j in range(m)], self.d)
            out.append((f"{nm}-nan-outside", self.q([k, K], hyp, IMP(NOT(inside), r.n))))
            if self.d < m:
                out.append((f"{nm}-piece", self.q([k, K, i], AND(hyp, inside, many, seg_spec(X, k, K, i, x.v)), feq(r, w))))
            else:
                out.append((f"{nm}-zero", self.q([k, K], AND(hyp, inside, many), AND(NOT(r.n), r.v == 0))))
        return out

    def q(self, vs, h, g):
        vs = [v for v in vs if not z3.is_int_value(v) and v.decl().name().find("!") >= 0]
        f = IMP(h, g)
        return forall(vs, f) if vs else f


def _mk(cls, **kw):
    C = type(cls.__name__, (cls,), kw)
    UNITS.append(C())
    return C


for _m in (2, 4):
    for _d in (0, 1, 2, 3)[:_m]:
        for _fn, _two, _nn in (("ppval_1", False, False), ("ppval_1_two", True, False), ("ppval_1_nonan", False, True), ("ppval_1_nonan_two", True, True)):
            _mk(_PPVal, func=_fn, two=_two, nonan=_nn, m=_m, d=_d, name=f"{PPI}:{_fn}[order={_m},d={_d}]")


class _PPInterp(Contract):
    path = PPI
    modular = False
    m, two, d = 4, False, 0

    def setup(self, ex, st):
        n = z3.Int("n")
        st.assume(n >= 0)
        out = {}

        def spec(ex_, st_, args, kw):
            X, Y, i = args
            cx = Ctx(ex_, st_, frame={"X": X, "Y": Y})
            tag = cx["Y"].content.tag
            i = Z(i)
            res = []
            for j in range(self.m):
                f = z3.Function(f"coef_{tag}_{j}", z3.IntSort(), z3.RealSort())
                fn = z3.Function(f"coefnan_{tag}_{j}", z3.IntSort(), z3.BoolSort())
                res.append(F(fn(i), f(i)))
            return tuple(res)

        self.spec = spec
        out["f"] = OpaqueFn("f", spec)
        out["x"] = fl("x", nan=True)
        out["X"] = arr(ex, st, "X", (n,))
        out["Y"] = arr(ex, st, "Y", (n,))
        if self.two:
            out["Z"] = arr(ex, st, "Z", (n,))
        out["d"] = self.d
        return out

    def requires(self, c):
        X = c["X"]
        n = Z(X.shape[0])
        a, b = z3.Ints("a!s b!s")
        return [("increasing", z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n, Z(NOT(as_f(X[a]).n)), Z(NOT(as_f(X[b]).n))), as_f(X[a]).v < as_f(X[b]).v)))]

    def ensures(self, c):
        X, Y, x = c.old["X"], c.old["Y"], as_f(c.old["x"])
        n = Z(X.shape[0])
        k, K, i = z3.Ints("k!v K!v i!seg")
        hyp = AND(*[f for _, f in vr_spec(X, Y, k, K, n)])
        inside = AND(NOT(x.n), k < K - 1, as_f(X[k]).v <= x.v, x.v <= as_f(X[K - 1]).v)
        res = c.res if isinstance(c.res, tuple) else (c.res,)
        out = []
        for nm, r in zip("YZ", res):
            r = as_f(r)
            cs = self.spec(c.ex, c.st, [c.ex.params["X"], c.ex.params[nm], i], {})
            w = pval_app(F(x.n, x.v - as_f(X[i]).v), list(cs), self.d)
            out.append((f"{nm}-nan-outside", forall([k, K], IMP(AND(hyp, NOT(inside)), r.n))))
            out.append((f"{nm}-piece", forall([k, K, i], IMP(AND(hyp, inside, seg_spec(X, k, K, i, x.v)), feq(r, w)))))
        return out


for _fn, _two in (("ppinterp_1", False), ("ppinterp_1_two", True)):
    for _m in (2, 4):
        for _d in (0, 1, 2, 3)[:_m]:
            _mk(_PPInterp, func=_fn, two=_two, m=_m, d=_d, name=f"{PPI}:{_fn}[order={_m},d={_d}]")


@contract
class VRUnique(Lemma):
    func = name = "lemma:valid-range-unique"

    def lemmas(self):
        n, k, K, k2, K2 = z3.Ints("n k K k2 K2")
        X = ArrV(fresh_content("X", (n,), "f", name="X"))
        Y = ArrV(fresh_content("Y", (n,), "f", name="Y"))
        h = [Z(f) for _, f in vr_spec(X, Y, k, K, n)] + [Z(f) for _, f in vr_spec(X, Y, k2, K2, n)]
        yield "unique", h, z3.And(k == k2, K == K2)
        h = [Z(f) for _, f in vr_spec(X, None, k, K, n)] + [Z(f) for _, f in vr_spec(X, None, k2, K2, n)]
        yield "unique1", h, z3.And(k == k2, K == K2)
