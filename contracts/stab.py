"""Contracts of neutralocean/stability.py."""
from .base import *  # noqa
from .vert import fn_name, snap, _R, _B
from .arrays import kept
from .ppi import vr_spec, ValidRange1, LIB as PLIB

STB = "neutralocean/stability.py"


def avg(a, b):
    a, b = as_f(a), as_f(b)
    return F(OR(a.n, b.n), (a.v + b.v) / 2)


def drho(eos, S, T, P, k):
    """locally referenced density of bottle k and bottle k+1"""
    p = avg(P(k), P(k + 1))
    return as_f(eos(S(k), T(k), p)), as_f(eos(S(k + 1), T(k + 1), p))


def grad(eos, S, T, P, k):
    a, b = drho(eos, S, T, P, k)
    p, q = as_f(P(k)), as_f(P(k + 1))
    dp = q.v - p.v
    return F(OR(a.n, b.n, p.n, q.n), (b.v - a.v) / dp)


@contract
class Calc(Contract):
    path, func = STB, "calc_dLRPDdp_fd_1"
    params = ["S", "T", "P", "eos"]
    modular = False

    def setup(self, ex, st):
        n = z3.Int("n")
        st.assume(n >= 1)
        d = {q: arr(ex, st, q, (n,)) for q in "STP"}
        d["eos"] = ffun("eos", 3)
        return d

    def requires(self, c):
        P = c["P"]
        k = z3.Int("k!p")
        return [("increasing", forall(k, IMP(AND(0 <= k, k < Z(P.shape[0]) - 1, NOT(as_f(P[k]).n), NOT(as_f(P[k + 1]).n)), as_f(P[k]).v < as_f(P[k + 1]).v)))]

    def ensures(self, c):
        o = c.old
        eos = o["eos"].scal
        k = z3.Int("k!g")
        n = Z(o["P"].shape[0])
        g = grad(eos, *[lambda j, a=o[q]: a[j] for q in "STP"], k)
        return [("shape", AND(len(c.res.shape) == 1, Z(c.res.shape[0]) == n - 1)),
                ("value", forall(k, IMP(inr(0, k, n - 1), feq(c.res[k], g))))] + [(q + "-kept", kept(c, q)) for q in "STP"]


def mk_count(rank, vdim, P1=False):
    class Count(Contract):
        path, func = STB, "count_unstable"
        params = ["S", "T", "P", "kw"]
        modular = False

        def setup(self, ex, st):
            sh = [z3.Int(f"n{i}") for i in range(rank)]
            for x in sh:
                st.assume(x >= 1)
            self.v, self.sh = vdim % rank, sh
            d = {q: arr(ex, st, q, sh) for q in "ST"}
            d["P"] = arr(ex, st, "P", (sh[self.v],) if P1 else sh)
            self.eos = ffun("eos", 3)
            d["kw"] = PyDict({"vert_dim": vdim, "eos": self.eos})
            return d

        def spec(self, c):
            """TOT(k): unstable pairs above bottle k; ROW(k, m): casts before m unstable at pair k"""
            ex = c.ex
            if "count_spec" in ex.__dict__:
                return ex.count_spec
            o, v, sh = c.old, self.v, self.sh
            lat = sh[:v] + sh[v + 1:]

            def full(m, j):
                if rank == 1:
                    return (j,)
                idx = [m] if rank == 2 else list(NPM.udivmod(ex, m, lat[1]))
                return tuple(idx[:v]) + (j,) + tuple(idx[v:])

            def unstable(k, m):
                at = {q: (lambda j, q=q: o[q][full(m, j)]) for q in "ST"}
                at["P"] = (lambda j: o["P"][j]) if P1 else (lambda j: o["P"][full(m, j)])
                a, b = drho(self.eos.scal, at["S"], at["T"], at["P"], k)
                return z3.If(Z(AND(NOT(a.n), NOT(b.n), a.v >= b.v)), z3.IntVal(1), z3.IntVal(0))

            k = z3.Int("k!c")
            if rank == 1:
                row = lambda k: unstable(k, None)
            else:
                N = Z(lat[0]) if rank == 2 else Z(lat[0]) * Z(lat[1])
                R = NPM.new_sum_family(ex, "i", unstable, N)
                row = lambda k: R(k, N)
            T = NPM.new_sum(ex, "i", row, sh[v] - 1)
            ex.count_spec = T
            return T

        def ensures(self, c):
            T = self.spec(c)
            return [("count", Z(as_int(c.res)) == T(self.sh[self.v] - 1))] + [(q + "-kept", kept(c, q)) for q in "STP"]

        def inv(c):
            yield "sofar", lambda: Z(as_int(c["num_unstab"])) == c.ex.contract.spec(c)(Z(c["#next"]))

        loops = [LoopSpec(inv)]

    Count.name = f"{STB}:count_unstable[rank={rank},vert_dim={vdim}{',one P' if P1 else ''}]"
    contract(Count)


mk_count(1, -1)
mk_count(2, -1)
mk_count(2, 0)
mk_count(2, 0, True)
mk_count(3, 1)


# ------------------------------------------------------------------ stabilize_ST
class VRKnown(ValidRange1):
    """valid_range_1 for a caller whose contract names the valid range of each of its
    rows (KLO, KHI): equal rows have equal valid ranges (lemma:valid-range-unique)"""

    def ensures(self, c):
        X = c["X"]
        out = list(super().ensures(c))
        if "vrfun" in c.ex.__dict__:
            row, lo, hi = c.ex.vrfun
            m, j = z3.Ints("m!v j!v")
            k, K = c.res
            same = forall(j, IMP(inr(0, j, X.shape[0]), feq(X[j], row(m, j))))
            out.append(("known", forall([m], IMP(same, AND(Z(k) == lo(m), Z(K) == hi(m))), pats=[lo(m)])))
        return out


def mk_stab(vdim, layout, P1=False, scalar=True, verbose=True):
    class Stab(Contract):
        path, func = STB, "stabilize_ST"
        params = ["S", "T", "P", "eos", "kw"]
        modular = False
        options = {"require": layout}
        callees = {(PLIB, "valid_range_1"): VRKnown()}

        def setup(self, ex, st):
            N, nk = z3.Ints("N nk")
            st.assume(z3.And(N >= 1, nk >= 1))
            self.v = vdim % 2
            sh = (N, nk) if self.v else (nk, N)
            d = {q: arr(ex, st, q, sh) for q in "ST"}
            d["P"] = arr(ex, st, "P", (nk,) if P1 else sh)
            d["eos"] = ffun("eos", 3, nan="total")
            mn = fl("mindrho") if scalar else arr(ex, st, "mins", (nk - 1,), nan=False)
            self.N, self.nk = N, nk
            d["kw"] = PyDict({"vert_dim": vdim, "min_dLRPDdp": mn, "verbose": verbose, "weight": fl("weight")})
            # KLO(m), KHI(m): the valid range of cast m
            S = ArrV(st.heap[d["S"].cell])
            row = lambda m, j: S[(m, j) if self.v else (j, m)]
            lo, hi = (z3.Function(ex.unm(q), z3.IntSort(), z3.IntSort()) for q in ("KLO", "KHI"))
            ex.vrfun = row, lo, hi
            m = z3.Int("m!k")
            for _, f in vr_spec(ArrV(Content((nk,), "f", lambda j: row(m, j[0]))), None, lo(m), hi(m), nk):
                ex.axiom(z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < N), f), patterns=[lo(m)]))
            return d

        def at(self, c, q, m, j):
            if q == "P" and P1:
                return as_f(c[q][j])
            return as_f(c[q][(m, j) if self.v else (j, m)])

        def requires(self, c):
            m, j = z3.Ints("m!r j!r")
            at = lambda q, j: self.at(c, q, m, j)
            dom = AND(inr(0, m, self.N), inr(0, j, self.nk))
            return [("valid", forall([m, j], IMP(AND(dom, NOT(at("S", j).n)), AND(NOT(at("T", j).n), NOT(at("P", j).n))))),
                    ("increasing", forall([m, j], IMP(AND(dom, j + 1 < self.nk, NOT(at("P", j).n), NOT(at("P", j + 1).n)), at("P", j).v < at("P", j + 1).v)))]

        def raises(self, c):
            """only when the optimiser reports failure"""
            return OR(*[NOT(ok) for ok in c.ex.__dict__.get("optimised", ())])

        def spec(self, c, new, m, j):
            """new(q, j): bottle j of cast m now"""
            old = lambda q, j: self.at(c.old, q, m, j)
            eos = c.old["eos"].scal
            S, T, P = (lambda j, q=q: old(q, j) for q in "STP")
            S1, T1 = (lambda j, q=q: new(q, j) for q in "ST")
            mn = c.old["kw"]["min_dLRPDdp"]
            low = lambda i: as_f(mn).v if scalar else as_f(mn[i]).v
            _, lo, hi = c.ex.vrfun
            k, K = lo(m), hi(m)
            i = z3.Int("i!u")
            unstable = exists(i, AND(k <= i, i < K - 1, grad(eos, S, T, P, i).v < low(i)))
            same = AND(feq(S1(j), S(j)), feq(T1(j), T(j)))
            g = grad(eos, S1, T1, P, j)
            return [("stable-kept", IMP(NOT(unstable), same)),
                    ("outside-kept", IMP(OR(j < k, j >= K), same)),
                    ("valid", IMP(AND(k <= j, j < K), AND(NOT(S1(j).n), NOT(T1(j).n)))),
                    ("stable-now", IMP(AND(k <= j, j < K - 1), AND(NOT(g.n), g.v >= low(j))))]

        def ensures(self, c):
            m, j = z3.Ints("m!s j!s")
            dom = AND(inr(0, m, self.N), inr(0, j, self.nk))
            return [(l, forall([m, j], IMP(dom, f))) for l, f in self.spec(c, lambda q, j: self.at(c, q, m, j), m, j)] + [("P-kept", kept(c, "P"))]

        def inv(c):
            self = c.ex.contract
            m, j = z3.Ints("m!s j!s")
            new = lambda q, j: as_f(c[q][m, j])
            done = AND(inr(0, m, c["#next"]), inr(0, j, self.nk))
            for n, l in enumerate(("stable-kept", "outside-kept", "valid", "stable-now")):
                yield l, lambda n=n: forall([m, j], IMP(done, self.spec(c, new, m, j)[n][1]))
            todo = AND(Z(c["#next"]) <= m, m < self.N, inr(0, j, self.nk))
            for q in "ST":
                yield q + "-todo", lambda q=q: forall([m, j], IMP(todo, feq(new(q, j), self.at(c.old, q, m, j))))

        loops = [LoopSpec(inv)]

    Stab.name = f"{STB}:stabilize_ST[vert_dim={vdim},{layout}{',one P' if P1 else ''}{'' if scalar else ',thresholds'}]"
    contract(Stab)


mk_stab(-1, "alias")
mk_stab(-1, "copy")
mk_stab(0, "alias")
mk_stab(0, "copy", P1=True, scalar=False, verbose=False)
