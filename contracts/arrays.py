"""Contracts of neutralocean/lib.py (array helpers), ntp.py, grid/tools.py (divergence)
and grid/graph.py (edges_to_csr, graph_binary_fcn)"""
from .base import *  # noqa

LIBP = "neutralocean/lib.py"
NTP = "neutralocean/ntp.py"
TLS = "neutralocean/grid/tools.py"


# ------------------------------------------------------------------ find_first_nan
def first_nan(get, r, J):
    """r is the first j with get(j) NaN, or J"""
    j = z3.Int("j!fn")
    r, J = Z(r), Z(J)
    return AND(0 <= r, r <= J, forall(j, IMP(z3.And(0 <= j, j < r), NOT(as_f(get(j)).n))), IMP(r < J, as_f(get(r)).n))


@contract
class FFN3(Contract):
    path, func = LIBP, "_find_first_nan"
    params = ["a"]

    def setup(self, ex, st):
        I, J, K = z3.Ints("I J K")
        st.assume(z3.And(I >= 0, J >= 0, K >= 0))
        return {"a": arr(ex, st, "a", (I, J, K))}

    def result(self, ex, st, c):
        a = c.old["a"]
        return ex.fresh_arr(st, "out", (a.shape[0], a.shape[2]), "i")

    def ensures(self, c):
        a, r = c.old["a"], c.res
        I, J, K = a.shape
        i, k = z3.Ints("i!e k!e")
        return [
            ("shape", AND(Z(r.shape[0]) == Z(I), Z(r.shape[1]) == Z(K))),
            ("first", forall([i, k], IMP(AND(inr(0, i, I), inr(0, k, K)), first_nan(lambda j: a[i, j, k], r[i, k], J)))),
        ]

    def inv0(c):
        a = c.old["a"]
        I, J, K = a.shape
        i, k = z3.Ints("i!e k!e")
        yield "done", lambda: forall([i, k], IMP(AND(inr(0, i, c["#next"]), inr(0, k, K)), first_nan(lambda j: a[i, j, k], c["out"][i, k], J)))
        yield "todo", lambda: forall([i, k], IMP(AND(inr(c["#next"], i, I), inr(0, k, K)), Z(c["out"][i, k]) == Z(J)))

    def inv1(c):
        a = c.old["a"]
        I, J, K = a.shape
        i, k = z3.Ints("i!e k!e")
        ii = lambda: Z(c["i"])
        done = lambda: OR(i < ii(), AND(i == ii(), k < Z(c["#next"])))
        yield "done", lambda: forall([i, k], IMP(AND(inr(0, i, I), inr(0, k, K), done()), first_nan(lambda j: a[i, j, k], c["out"][i, k], J)))
        yield "todo", lambda: forall([i, k], IMP(AND(inr(0, i, I), inr(0, k, K), NOT(done())), Z(c["out"][i, k]) == Z(J)))

    def inv2(c):
        a = c.old["a"]
        I, J, K = a.shape
        j = z3.Int("j!fn")
        yield "none", lambda: forall(j, IMP(AND(0 <= j, j < Z(c["#next"])), NOT(as_f(a[c["i"], j, c["k"]]).n)))
        yield "out", lambda: Z(c["out"][c["i"], c["k"]]) == Z(J)
        yield from FFN3.inv1x(c)

    def inv1x(c):
        a = c.old["a"]
        I, J, K = a.shape
        i, k = z3.Ints("i!e k!e")
        done = lambda: OR(i < Z(c["i"]), AND(i == Z(c["i"]), k < Z(c["k"])))
        yield "done", lambda: forall([i, k], IMP(AND(inr(0, i, I), inr(0, k, K), done()), first_nan(lambda j: a[i, j, k], c["out"][i, k], J)))
        yield "todo", lambda: forall([i, k], IMP(AND(inr(0, i, I), inr(0, k, K), NOT(done())), Z(c["out"][i, k]) == Z(J)))

    loops = [LoopSpec(inv0), LoopSpec(inv1), LoopSpec(inv2)]


def mk_ffn(rank, axis):
    class FFN(Contract):
        path, func = LIBP, "find_first_nan"
        params = ["a", "axis"]
        modular = False
        numba = False

        def setup(self, ex, st):
            sh = [z3.Int(f"n{i}") for i in range(rank)]
            for s in sh:
                st.assume(s >= 0)
            return {"a": arr(ex, st, "a", sh), "axis": axis}

        def ensures(self, c):
            a, r = c.old["a"], c.res
            ax = axis % rank
            lat = [q for q in range(rank) if q != ax]
            idx = [z3.Int(f"i{q}!e") for q in lat]

            def get(j):
                full = list(idx)
                full.insert(ax, j)
                return a[tuple(full)]

            out = [("rank", len(r.shape) == rank - 1)]
            out += [(f"shape{n}", Z(r.shape[n]) == Z(a.shape[q])) for n, q in enumerate(lat)]
            rng = AND(*[inr(0, i, a.shape[q]) for i, q in zip(idx, lat)])
            body = IMP(rng, first_nan(get, r[tuple(idx)], a.shape[ax]))
            out.append(("first", forall(idx, body) if idx else body))
            return out

    FFN.name = f"{LIBP}:find_first_nan[rank={rank},axis={axis}]"
    contract(FFN)


for _r, _a in ((1, 0), (1, -1), (2, 0), (2, 1), (2, -1), (3, 0), (3, 1), (3, 2), (3, -1)):
    mk_ffn(_r, _a)


# ------------------------------------------------------------------ take_fill
def mk_take(rank):
    class Take(Contract):
        path, func = LIBP, "take_fill"
        params = ["a", "idx", "fillval"]
        modular = False

        def setup(self, ex, st):
            n = z3.Int("n")
            self.ex = ex
            sh = [z3.Int(f"n{i}") for i in range(rank)]
            for s in sh + [n]:
                st.assume(s >= 0)
            return {"a": arr(ex, st, "a", sh), "idx": arr(ex, st, "idx", (n,), "i"), "fillval": fl("fillval", nan=True)}

        def requires(self, c):
            i = z3.Int("i!t")
            return [("range", forall(i, IMP(inr(0, i, c["idx"].shape[0]), Z(c["idx"][i]) < Z(c["a"].size))))]

        def el(self, a, i):
            if rank == 1:
                return a[i]
            return a[NPM.udivmod(self.ex, i, a.shape[1])]

        def ensures(self, c):
            a, idx, b = c.old["a"], c.old["idx"], c.res
            n = idx.shape[0]
            i = z3.Int("i!t")
            k = Z(idx[i])
            return [
                ("length", AND(len(b.shape) == 1, Z(b.shape[0]) == Z(n))),
                ("taken", forall(i, IMP(AND(inr(0, i, n), k >= 0), feq(b[i], self.el(a, k))))),
                ("filled", forall(i, IMP(AND(inr(0, i, n), k < 0), feq(b[i], c.old["fillval"])))),
                ("a-kept", kept(c, "a")), ("idx-kept", kept(c, "idx")),
            ]

        def mkinv(self):
            def inv(c):
                a, idx = c.old["a"], c.old["idx"]
                i = z3.Int("i!t")
                k = Z(idx[i])
                yield "taken", lambda: forall(i, IMP(AND(inr(0, i, c["#next"]), k >= 0), feq(c["b"][i], self.el(a, k))))
                yield "filled", lambda: forall(i, IMP(AND(inr(0, i, c["#next"]), k < 0), feq(c["b"][i], c.old["fillval"])))

            return inv

        def __init__(self):
            self.loops = [LoopSpec(self.mkinv())]

    Take.name = f"{LIBP}:take_fill[rank={rank}]"
    contract(Take)


def kept(c, name):
    """the caller's array has its original content"""
    new, old = c[name], c.old[name]
    if len(new.shape) != len(old.shape):
        return False
    vs = [z3.Int(f"q{i}!k") for i in range(len(old.shape))]
    rng = AND(*[inr(0, v, s) for v, s in zip(vs, old.shape)])
    x, y = new[tuple(vs)], old[tuple(vs)]
    return forall(vs, IMP(rng, feq(x, y) if old.kind == "f" else Z(x) == Z(y)))


for _r in (1, 2):
    mk_take(_r)


# ------------------------------------------------------------------ aggsum, divergence
from vpy.numpy_model import agg_fn  # noqa


@contract
class AggSum(Contract):
    path, func = LIBP, "aggsum"
    params = ["a", "idx", "n"]

    def setup(self, ex, st):
        m, n = z3.Ints("m n")
        st.assume(z3.And(m >= 0, n >= 0))
        return {"a": arr(ex, st, "a", (m,)), "idx": arr(ex, st, "idx", (m,), "i"), "n": n}

    def requires(self, c):
        i = z3.Int("i!t")
        return [("length", Z(c["a"].shape[0]) >= Z(c["idx"].shape[0])), ("n", Z(c["n"]) >= 0),
                ("range", forall(i, IMP(inr(0, i, c["idx"].shape[0]), Z(c["idx"][i]) < Z(c["n"]))))]

    def result(self, ex, st, c):
        a, idx = c.old["a"], c.old["idx"]
        S, N = agg_fn(ex, a, idx, "")
        M = Z(idx.shape[0])
        return ex.new_arr(st, Content((c.old["n"],), "f", lambda j: F(N(M, Z(j[0])), S(M, Z(j[0])))))

    def ensures(self, c):
        a, idx, b = c.old["a"], c.old["idx"], c.res
        S, N = agg_fn(c.ex, a, idx, "")
        M = Z(idx.shape[0])
        j = z3.Int("j!t")
        return [("length", Z(b.shape[0]) == Z(c.old["n"])),
                ("sums", forall(j, IMP(inr(0, j, c.old["n"]), feq(b[j], F(N(M, j), S(M, j))))))]

    def inv(c):
        a, idx = c.old["a"], c.old["idx"]
        j = z3.Int("j!t")
        S, N = agg_fn(c.ex, a, idx, "")
        yield "partial", lambda: forall(j, IMP(inr(0, j, c.old["n"]), feq(c["b"][j], F(N(Z(c["#next"]), j), S(Z(c["#next"]), j)))))

    loops = [LoopSpec(inv)]


def mk_div(dp, ar):
    class Div(Contract):
        path, func = TLS, "divergence"
        params = ["vector", "edges", "distperp", "area"]
        modular = False
        numba = False

        def setup(self, ex, st):
            m = z3.Int("m")
            st.assume(m >= 1)
            d = {"vector": arr(ex, st, "vector", (m,)), "edges": (arr(ex, st, "ea", (m,), "i"), arr(ex, st, "eb", (m,), "i"))}
            if dp:
                d["distperp"] = arr(ex, st, "dp", (m,), nan=False)
            if ar:
                n = z3.Int("n")
                d["area"] = arr(ex, st, "area", (n,), nan=False)
            return d

        def requires(self, c):
            a, b = c["edges"]
            i = z3.Int("i!t")
            out = [("nodes", forall(i, IMP(inr(0, i, a.shape[0]), AND(Z(a[i]) >= 0, Z(b[i]) >= 0))))]
            if ar:
                n = Z(c["area"].shape[0])
                j = z3.Int("j!t")
                out.append(("area-size", AND(forall(i, IMP(inr(0, i, a.shape[0]), AND(Z(a[i]) < n, Z(b[i]) < n))),
                                             z3.Exists([i], z3.And(inr(0, i, a.shape[0]), z3.Or(Z(a[i]) == n - 1, Z(b[i]) == n - 1))))))
                out.append(("area-positive", forall(j, IMP(inr(0, j, n), as_f(c["area"][j]).v > 0))))
            return out

        def ensures(self, c):
            a, b = c.old["edges"]
            v = c.old["vector"]
            if dp:
                q = c.old["distperp"]
                e = ArrV(Content(v.shape, "f", lambda i: F(as_f(v[i]).n, as_f(v[i]).v * as_f(q[i]).v)))
            else:
                e = v
            # sums over edges out of j minus sums over edges into j
            S1, N1 = agg_fn(c.ex, e, a, "spec")
            S2, N2 = agg_fn(c.ex, e, b, "spec")
            ext(c.ex, e, a)
            ext(c.ex, e, b)
            M = Z(v.shape[0])
            j = z3.Int("j!t")
            r = c.res
            val = S1(M, j) - S2(M, j)
            if ar:
                val = val / as_f(c.old["area"][j]).v
            i = z3.Int("i!u")
            return [("nodes", forall(i, IMP(inr(0, i, M), AND(Z(a[i]) < Z(r.shape[0]), Z(b[i]) < Z(r.shape[0]))))),
                    ("value", forall(j, IMP(inr(0, j, r.shape[0]), feq(r[j], F(OR(N1(M, j), N2(M, j)), val)))))]

    Div.name = f"{TLS}:divergence[{'dp' if dp else ''}{',area' if ar else ''}]"
    contract(Div)


def ext(ex, e, idx):
    """sums of pointwise equal terms over the same index list are equal"""
    i, j = z3.Ints("i!x j!x")
    lst = list(ex.aggs.values())
    for S1, N1, e1, i1 in lst:
        for S2, N2, e2, i2 in lst:
            if S1 is S2:
                continue
            M1, M2 = Z(i1.shape[0]), Z(i2.shape[0])
            same = z3.And(M1 == M2, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < M1), z3.And(Z(feq(e1[i], e2[i])), Z(i1[i]) == Z(i2[i])))))
            ex.axiom(z3.Implies(same, z3.ForAll([j], z3.And(S1(M1, j) == S2(M2, j), N1(M1, j) == N2(M2, j)))))


for _d, _a in ((False, False), (True, False), (True, True)):
    mk_div(_d, _a)


# ------------------------------------------------------------------ val_at
def mk_valat(rank, mode):
    class VA(Contract):
        path, func = LIBP, "val_at"
        params = ["T", "k"]
        modular = False
        numba = False

        def setup(self, ex, st):
            sh = [z3.Int(f"n{i}") for i in range(rank)]
            for s in sh:
                st.assume(s >= 1)
            T = arr(ex, st, "T", sh)
            if mode == "int":
                k = z3.Int("k")
            elif mode == "arr":
                k = arr(ex, st, "k", sh[:-1], "i")
            else:
                m = z3.Int("m")
                st.assume(m >= 0)
                k = arr(ex, st, "k", (m,), "i")
            return {"T": T, "k": k}

        def requires(self, c):
            n = Z(c["T"].shape[-1])
            k = c["k"]
            if mode == "int":
                return [("k", z3.And(-n <= k, k < n))]
            vs = [z3.Int(f"q{i}!r") for i in range(len(k.shape))]
            return [("k", forall(vs, IMP(AND(*[inr(0, v, s) for v, s in zip(vs, k.shape)]), AND(-n <= Z(k[tuple(vs)]), Z(k[tuple(vs)]) < n))))]

        def ensures(self, c):
            T, k, r = c.old["T"], c.old["k"], c.res
            if mode == "int":
                lat = T.shape[:-1]
            else:
                lat = k.shape
            vs = [z3.Int(f"q{i}!e") for i in range(len(lat))]
            kk = Z(k) if mode == "int" else Z(k[tuple(vs)])
            if not isinstance(r, ArrV):
                if lat:
                    return [("rank", False)]
                g = as_f(r)
            else:
                if len(r.shape) != len(lat):
                    return [("rank", False)]
                g = as_f(r[tuple(vs)])
            src = as_f(T[tuple(vs) + (kk,)]) if mode != "list" else as_f(T[(kk,)])
            rng = AND(*[inr(0, v, s) for v, s in zip(vs, lat)])
            goal = AND(IMP(kk < 0, g.n), IMP(kk >= 0, feq(g, src)))
            out = [(f"shape{i}", Z(r.shape[i]) == Z(s)) for i, s in enumerate(lat)]
            out.append(("value", forall(vs, IMP(rng, goal)) if vs else goal))
            out.append(("T-kept", kept(c, "T")))
            return out

    VA.name = f"{LIBP}:val_at[rank={rank},{mode}]"
    contract(VA)


for _r in (1, 2, 3):
    mk_valat(_r, "int")
for _r in (2, 3):
    mk_valat(_r, "arr")
mk_valat(1, "list")


# ------------------------------------------------------------------ neutrality errors
def eos_st(total=True):
    rs = ffun("rho_s", 3, nan="total" if total else "range")
    rt = ffun("rho_t", 3, nan="total" if total else "range")

    def spec(ex, st, args, kw):
        return (rs.spec(ex, st, args, kw), rt.spec(ex, st, args, kw))

    o = OpaqueFn("eos_s_t", spec)
    o.rs, o.rt = rs, rt
    return o


def eps_spec(fn, s, t, p, a, b):
    """rho_s ds + rho_t dt at the mid point, from a to b"""
    sa, sb, ta, tb, pa, pb = (as_f(x) for x in (s[a], s[b], t[a], t[b], p[a], p[b]))
    h = z3.Q(1, 2)
    mid = [F(OR(x.n, y.n), h * (x.v + y.v)) for x, y in ((sa, sb), (ta, tb), (pa, pb))]
    rs, rt = fn.rs.scal(*mid), fn.rt.scal(*mid)
    return F(OR(sa.n, sb.n, ta.n, tb.n, pa.n, pb.n), rs.v * (sb.v - sa.v) + rt.v * (tb.v - ta.v))


ST = eos_st()


@contract
class Eps1(Contract):
    path, func = NTP, "_ntp_epsilon_error1"
    params = ["s", "t", "p", "a", "b", "eos_s_t"]
    options = {"let_nl": False}

    def setup(self, ex, st):
        n, m = z3.Ints("n m")
        st.assume(z3.And(n >= 0, m >= 0))
        d = {x: arr(ex, st, x, (n,)) for x in "stp"}
        d.update({x: arr(ex, st, x, (m,), "i") for x in "ab"})
        d["eos_s_t"] = ST
        return d

    def requires(self, c):
        i = z3.Int("i!t")
        n = c["s"].shape[0]
        return [("sizes", AND(Z(c["t"].shape[0]) == Z(n), Z(c["p"].shape[0]) == Z(n), Z(c["b"].shape[0]) == Z(c["a"].shape[0]))),
                ("nodes", forall(i, IMP(inr(0, i, c["a"].shape[0]), AND(inr(0, c["a"][i], n), inr(0, c["b"][i], n))))),
                ("eos", c["eos_s_t"] is ST)]

    def result(self, ex, st, c):
        o = c.old
        return ex.new_arr(st, Content((o["a"].shape[0],), "f", lambda i: eps_spec(ST, o["s"], o["t"], o["p"], o["a"][i], o["b"][i])))

    def ensures(self, c):
        o = c.old
        i = z3.Int("i!t")
        return [("length", Z(c.res.shape[0]) == Z(o["a"].shape[0])),
                ("error", forall(i, IMP(inr(0, i, o["a"].shape[0]), feq(c.res[i], eps_spec(ST, o["s"], o["t"], o["p"], o["a"][i], o["b"][i])))))]

    def inv(c):
        o = c.old
        i = z3.Int("i!t")
        yield "done", lambda: forall(i, IMP(inr(0, i, c["#next"]), feq(c["e"][i], eps_spec(ST, o["s"], o["t"], o["p"], o["a"][i], o["b"][i]))))

    loops = [LoopSpec(inv)]


def flatv(ex, a):
    """C-order flat view of a rank 1 or 2 snapshot"""
    if len(a.shape) == 1:
        return a
    return ArrV(Content((a.size,), "f", lambda i: a[NPM.udivmod(ex, i[0], a.shape[1])]))


def grid_arg(ex, st, m, form):
    e = (arr(ex, st, "ea", (m,), "i"), arr(ex, st, "eb", (m,), "i"))
    if form == "tuple":
        return e
    d = PyDict()
    d["edges"] = e
    if form in ("dist", "both"):
        d["dist"] = arr(ex, st, "dist", (m,), nan=False)
    if form == "both":
        d["distperp"] = arr(ex, st, "distperp", (m,), nan=False)
    if form == "scalar":
        d["dist"] = fl("dist")
        d["distperp"] = fl("distperp")
    return d


class _Eps(Contract):
    path = NTP
    params = ["s", "t", "p", "grid", "eos_s_t"]
    modular = False
    numba = False
    form, rank = "tuple", 1

    def setup(self, ex, st):
        m = z3.Int("m")
        sh = [z3.Int(f"n{i}") for i in range(self.rank)]
        for x in sh + [m]:
            st.assume(x >= 0)
        d = {x: arr(ex, st, x, sh) for x in "stp"}
        g = grid_arg(ex, st, m, self.form)
        d["grid"] = g
        d["eos_s_t"] = ST
        self.g = {"edges": g} if isinstance(g, tuple) else dict(g)
        self.sn = None
        return d

    def gv(self, c):
        if self.sn is None:
            self.sn = {k: c.view(v) for k, v in self.g.items()}
        return self.sn

    def requires(self, c):
        g = self.gv(c)
        a, b = g["edges"]
        n = c["s"].size
        i = z3.Int("i!t")
        out = [("nodes", forall(i, IMP(inr(0, i, a.shape[0]), AND(inr(0, a[i], n), inr(0, b[i], n)))))]
        for k in ("dist", "distperp"):
            if k in g:
                if isinstance(g[k], ArrV):
                    out.append((k, forall(i, IMP(inr(0, i, a.shape[0]), as_f(g[k][i]).v > 0))))
                else:
                    out.append((k, g[k].v > 0))
        return out

    def eps(self, c):
        g = self.gv(c)
        s, t, p = (flatv(c.ex, c.old[x]) for x in "stp")
        a, b = g["edges"]
        return lambda i: eps_spec(ST, s, t, p, a[i], b[i])


class _EpsErr(_Eps):
    func = "ntp_epsilon_errors"

    def ensures(self, c):
        g = self.gv(c)
        M = g["edges"][0].shape[0]
        i = z3.Int("i!t")
        e = self.eps(c)(i)
        if "dist" in g:
            d = g["dist"][i] if isinstance(g["dist"], ArrV) else g["dist"]
            e = F(e.n, e.v / as_f(d).v)
        return [("length", Z(c.res.shape[0]) == Z(M)), ("error", forall(i, IMP(inr(0, i, M), feq(c.res[i], e)))),
                ("s-kept", kept(c, "s")), ("t-kept", kept(c, "t")), ("p-kept", kept(c, "p"))]


class _EpsNorm(_Eps):
    func = "ntp_epsilon_errors_norms"

    def ensures(self, c):
        g = self.gv(c)
        M = Z(g["edges"][0].shape[0])
        e = self.eps(c)
        one = F(False, z3.RealVal(1))

        def w(k, i):
            x = g.get(k, one)
            return as_f(x[i] if isinstance(x, ArrV) else x).v

        zero = z3.RealVal(0)
        fin = lambda i, v: z3.If(Z(e(i).n), zero, v)
        area = NPM.new_sum(c.ex, "f", lambda i: fin(i, w("dist", i) * w("distperp", i)), M)(M)
        sq = NPM.new_sum(c.ex, "f", lambda i: fin(i, w("distperp", i) / w("dist", i) * (e(i).v * e(i).v)), M)(M)
        ab = NPM.new_sum(c.ex, "f", lambda i: fin(i, w("distperp", i) * z3.If(e(i).v >= 0, e(i).v, -e(i).v)), M)(M)
        rms, mav = (as_f(x) for x in c.res)
        sqrt = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
        return [
            ("none", IMP(area == 0, AND(NOT(rms.n), rms.v == 0, NOT(mav.n), mav.v == 0))),
            ("rms", IMP(area != 0, rms.v == sqrt(sq / area))),
            ("mav", IMP(area != 0, AND(NOT(mav.n), mav.v * area == ab))),
        ]


for _f in ("tuple", "plain", "dist", "scalar", "both"):
    for _r in (1, 2):
        _C = type("EpsErr", (_EpsErr,), dict(form=_f, rank=_r, name=f"{NTP}:ntp_epsilon_errors[{_f},rank={_r}]"))
        UNITS.append(_C())
for _f in ("plain", "dist", "scalar", "both"):
    _C = type("EpsNorm", (_EpsNorm,), dict(form=_f, name=f"{NTP}:ntp_epsilon_errors_norms[{_f}]"))
    UNITS.append(_C())
