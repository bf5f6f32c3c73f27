"""Contracts of the global solvers in neutralocean/surface/omega.py."""
from .base import *  # noqa
from .arrays import kept, eps_spec, ST
from vpy.numpy_model import selection_facts

OM = "neutralocean/surface/omega.py"
_I, _R, _B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def fun(name, *sorts):
    return z3.Function(name, *sorts)


def induct(c, label, phi, K, vs=(), facts=None):
    """prove phi(0), and phi(k) => phi(k + 1) for 0 <= k < K; then assume phi(K), for
    all values of the (otherwise unused) constants vs"""
    ex, st = c.ex, c.st
    k = z3.Int(ex.nm("k!ind"))
    s0 = st.copy()
    ex.oblige(s0, "lemma", label + ".base", phi(z3.IntVal(0)), "induction")
    s1 = st.copy()
    s1.assume(z3.And(0 <= k, k < K))
    s1.assume(phi(k))
    for q, f in enumerate(facts(k) if facts else ()):
        ex.oblige(s1, "lemma", f"{label}.fact{q}", f, "induction")
    ex.oblige(s1, "lemma", label + ".step", phi(k + 1), "induction")
    f = z3.Implies(K >= 0, phi(K))
    st.assume(z3.ForAll(list(vs), f) if vs else f)
    if vs:
        st.assume(f)


def have(c, label, goal):
    c.ex.oblige(c.st, "lemma", label, goal, "proof")


# ------------------------------------------------------------------ lemmas
@contract
class Selection(Lemma):
    """the enumeration of the True positions of a mask, at prefix counts"""
    func = name = "lemma:selection"

    def lemmas(self):
        sel, inv, CB = fun("sel", _I, _I), fun("inv", _I, _I), fun("CB", _I, _I)
        g = fun("g", _I, _B)
        cnt, n, i, j, i0 = z3.Ints("cnt n i j i0")
        ax = [n >= 0, cnt >= 0, cnt <= n,
              z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < cnt), z3.And(sel(i) >= 0, sel(i) < n, g(sel(i)), inv(sel(i)) == i))),
              z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, g(i)), z3.And(inv(i) >= 0, inv(i) < cnt, sel(inv(i)) == i))),
              z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < cnt), sel(i) < sel(j)))]
        rec = [CB(0) == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), CB(i + 1) == CB(i) + z3.If(g(i), 1, 0)))]

        def psi(m):
            return z3.And(0 <= CB(m), CB(m) <= cnt, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < CB(m)), sel(j) < m)),
                          z3.ForAll([j], z3.Implies(z3.And(CB(m) <= j, j < cnt), sel(j) >= m)))

        out = [("base", ax + rec, psi(z3.IntVal(0)))]
        out.append(("step", ax + rec + [0 <= i0, i0 < n, psi(i0)], psi(i0 + 1)))
        allpsi = z3.ForAll([i0], z3.Implies(z3.And(0 <= i0, i0 <= n), psi(i0)))
        for k, f in enumerate(selection_facts(CB, sel, inv, cnt, g, n)):
            out.append((f"fact{k}", ax + rec + [allpsi, psi(n)], f))
        return out


@contract
class Sums(Lemma):
    """sums of the terms with a given index: over one row of consecutive indices, and
    over a concatenation"""
    func = name = "lemma:sums"

    def lemmas(self):
        S, f, idx = fun("S", _I, _I, _R), fun("f", _I, _R), fun("idx", _I, _I)
        S1, S2, f2, idx2 = fun("S1", _I, _I, _R), fun("S2", _I, _I, _R), fun("f2", _I, _R), fun("idx2", _I, _I)
        k, i, n1, n2, k0 = z3.Ints("k i n1 n2 k0")

        def rec(S, f, idx):
            return [z3.ForAll([i], S(0, i) == 0), z3.ForAll([k, i], z3.Implies(k >= 0, S(k + 1, i) == S(k, i) + z3.If(idx(k) == i, f(k), 0)))]

        h = rec(S, f, idx)
        delta = lambda m: S(m, i) == z3.If(z3.And(0 <= i, i < m), f(i), 0)
        cons = z3.ForAll([k], idx(k) == k)
        out = [("row.base", h + [cons], delta(z3.IntVal(0))), ("row.step", h + [cons, k0 >= 0, delta(k0)], delta(k0 + 1))]
        # S over the concatenation of (f1, idx1) of length n1 and (f2, idx2)
        F1, X1 = fun("f1", _I, _R), fun("idx1", _I, _I)
        h = rec(S, f, idx) + rec(S1, F1, X1) + rec(S2, f2, idx2)
        cat = [n1 >= 0, z3.ForAll([k], f(k) == z3.If(k < n1, F1(k), f2(k - n1))), z3.ForAll([k], idx(k) == z3.If(k < n1, X1(k), idx2(k - n1)))]
        one = lambda m: z3.Implies(m <= n1, S(m, i) == S1(m, i))
        two = lambda m: S(n1 + m, i) == S1(n1, i) + S2(m, i)
        out += [("cat.first.base", h + cat, one(z3.IntVal(0))), ("cat.first.step", h + cat + [k0 >= 0, one(k0)], one(k0 + 1)),
                ("cat.base", h + cat + [one(n1)], two(z3.IntVal(0))), ("cat.step", h + cat + [k0 >= 0, two(k0)], two(k0 + 1))]
        # a sum with a term that is not a number
        NN, bad = fun("NN", _I, _I, _B), fun("bad", _I, _B)
        h = [z3.ForAll([i], z3.Not(NN(0, i))), z3.ForAll([k, i], z3.Implies(k >= 0, NN(k + 1, i) == z3.Or(NN(k, i), z3.And(idx(k) == i, bad(k)))))]
        some = lambda m: z3.Implies(NN(m, i), z3.Exists([k], z3.And(0 <= k, k < m, bad(k), idx(k) == i)))
        out += [("nan.base", h, some(z3.IntVal(0))), ("nan.step", h + [k0 >= 0, some(k0)], some(k0 + 1))]
        return out


def hrec(H, g, a, b):
    """H(k, j): sum over the first k edges of g, counted positively out of j and
    negatively into j"""
    k, j = z3.Ints("k!h j!h")
    z = z3.RealVal(0)
    return [z3.ForAll([j], H(0, j) == 0, patterns=[H(0, j)]),
            z3.ForAll([k, j], z3.Implies(k >= 0, H(k + 1, j) == H(k, j) + z3.If(a(k) == j, g(k), z) - z3.If(b(k) == j, g(k), z)), patterns=[H(k + 1, j)])]


@contract
class Balance(Lemma):
    """what leaves the nodes arrives in the nodes: if the balance H of every node is 0
    except at one, it is 0 there as well"""
    func = name = "lemma:balance"

    def lemmas(self):
        H, U, T = fun("H", _I, _I, _R), fun("U", _I, _I, _R), fun("T", _I, _R)
        g, a, b = fun("g", _I, _R), fun("a", _I, _I), fun("b", _I, _I)
        K, N, k, m, k0, m0, r = z3.Ints("K N k m k0 m0 r")
        c = z3.Real("c")
        z = z3.RealVal(0)
        h = hrec(H, g, a, b)
        # U(k, m): the same sum over the edges, for the nodes below m together
        u = [z3.ForAll([m], U(0, m) == 0),
             z3.ForAll([k, m], z3.Implies(k >= 0, U(k + 1, m) == U(k, m) + z3.If(a(k) < m, g(k), z) - z3.If(b(k) < m, g(k), z)))]
        t = [T(0) == 0, z3.ForAll([m], z3.Implies(m >= 0, T(m + 1) == T(m) + H(K, m)))]
        inr_ = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < K), z3.And(0 <= a(k), a(k) < N, 0 <= b(k), b(k) < N)))
        dif = lambda q, m: U(q, m + 1) - U(q, m) == H(q, m)
        zero = lambda q: z3.Implies(q <= K, U(q, 0) == 0)
        full = lambda q: z3.Implies(q <= K, U(q, N) == 0)
        out = [("dif.base", h + u, dif(z3.IntVal(0), m0)), ("dif.step", h + u + [k0 >= 0, dif(k0, m0)], dif(k0 + 1, m0)),
               ("zero.base", u, zero(z3.IntVal(0))), ("zero.step", u + [inr_, k0 >= 0, zero(k0)], zero(k0 + 1)),
               ("full.base", u, full(z3.IntVal(0))), ("full.step", u + [inr_, k0 >= 0, full(k0)], full(k0 + 1))]
        both = lambda m: T(m) == U(K, m)
        out += [("total.base", t + [zero(K), K >= 0], both(z3.IntVal(0))), ("total.step", t + [m0 >= 0, both(m0), dif(K, m0)], both(m0 + 1))]
        only = z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < N), H(K, m) == z3.If(m == r, c, z)))
        part = lambda m: z3.Implies(m <= N, T(m) == z3.If(z3.And(0 <= r, r < m), c, z))
        out += [("one.base", t, part(z3.IntVal(0))), ("one.step", t + [only, m0 >= 0, part(m0)], part(m0 + 1)),
                ("conclusion", [both(N), full(K), part(N), 0 <= r, r < N, K >= 0], c == 0)]
        return out


def crec(C, g, d, a, b):
    """C(k): sum over the first k edges of g times the difference of d along the edge"""
    k = z3.Int("k!c")
    return [C(0) == 0, z3.ForAll([k], z3.Implies(k >= 0, C(k + 1) == C(k) + g(k) * (d(b(k)) - d(a(k)))), patterns=[C(k + 1)])]


@contract
class Power(Lemma):
    """if g balances at every node, the sum over the edges of g times the difference of
    any d along the edge is 0"""
    func = name = "lemma:power"

    def lemmas(self):
        H, U, C = fun("H", _I, _I, _R), fun("U", _I, _I, _R), fun("C", _I, _R)
        g, a, b, d = fun("g", _I, _R), fun("a", _I, _I), fun("b", _I, _I), fun("d", _I, _R)
        K, N, k, m, k0, m0 = z3.Ints("K N k m k0 m0")
        z = z3.RealVal(0)
        h = hrec(H, g, a, b)
        u = [z3.ForAll([m], U(0, m) == 0),
             z3.ForAll([k, m], z3.Implies(k >= 0, U(k + 1, m) == U(k, m) + z3.If(b(k) < m, g(k) * d(b(k)), z) - z3.If(a(k) < m, g(k) * d(a(k)), z)))]
        inr_ = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < K), z3.And(0 <= a(k), a(k) < N, 0 <= b(k), b(k) < N)))
        dif = lambda q, m: U(q, m + 1) - U(q, m) == -(d(m) * H(q, m))
        zero = lambda q: z3.Implies(q <= K, U(q, 0) == 0)
        full = lambda q: z3.Implies(q <= K, U(q, N) == C(q))
        cr = crec(C, g, d, a, b)
        bal = z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < N), H(K, m) == 0))
        all0 = lambda m: z3.Implies(m <= N, U(K, m) == 0)
        return [("dif.base", h + u, dif(z3.IntVal(0), m0)), ("dif.step", h + u + [k0 >= 0, dif(k0, m0)], dif(k0 + 1, m0)),
                ("zero.base", u, zero(z3.IntVal(0))), ("zero.step", u + [inr_, k0 >= 0, zero(k0)], zero(k0 + 1)),
                ("full.base", u + cr, full(z3.IntVal(0))), ("full.step", u + cr + [inr_, k0 >= 0, full(k0)], full(k0 + 1)),
                ("nodes.base", [zero(K)], all0(z3.IntVal(0))), ("nodes.step", [bal, dif(K, m0), m0 >= 0, all0(m0)], all0(m0 + 1)),
                ("conclusion", [all0(N), full(K), N >= 0], C(K) == 0)]


@contract
class Energy(Lemma):
    """a function whose weighted differences balance at every node is constant along
    every edge; with value 0 at the root of a spanning tree it is 0"""
    func = name = "lemma:energy"

    def lemmas(self):
        C, w, a, b, Y = fun("C", _I, _R), fun("w", _I, _R), fun("a", _I, _I), fun("b", _I, _I), fun("Y", _I, _R)
        K, k, k0, k1 = z3.Ints("K k k0 k1")
        g = lambda k: w(k) * (Y(b(k)) - Y(a(k)))
        cr = crec(C, g, Y, a, b)
        pos = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < K), w(k) > 0))
        up = lambda q: z3.Implies(q <= K, C(q) >= 0)
        # C does not decrease
        mono = lambda q: z3.Implies(k1 + q <= K, C(k1 + q) >= C(k1))
        out = [("grow", cr + [pos, 0 <= k0, k0 < K], C(k0 + 1) >= C(k0)),
               ("start.base", cr, up(z3.IntVal(0))), ("start.step", cr + [C(k0 + 1) >= C(k0), k0 >= 0, up(k0)], up(k0 + 1)),
               ("mono.base", cr, mono(z3.IntVal(0))), ("mono.step", [k0 >= 0, k1 >= 0, z3.Implies(k1 + k0 < K, C(k1 + k0 + 1) >= C(k1 + k0)), mono(k0)], mono(k0 + 1))]
        x = z3.Real("x")
        out.append(("edge", [0 <= k1, k1 < K, up(k1), C(k1 + 1) >= C(k1), C(K) >= C(k1 + 1), C(K) == 0, C(k1 + 1) == C(k1) + w(k1) * (x * x), w(k1) > 0], x == 0))
        # along a tree
        N, R, j, D, j0 = z3.Ints("N R j D j0")
        dep, par = fun("dep", _I, _I), fun("par", _I, _I)
        tree = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < N, j != R), z3.And(0 <= par(j), par(j) < N, dep(par(j)) < dep(j), Y(par(j)) == Y(j))))
        low = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < N), dep(j) >= 0))
        level = lambda D: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < N, dep(j) <= D), Y(j) == 0))
        out += [("tree.base", [tree, low, Y(R) == 0], level(z3.IntVal(0))), ("tree.step", [tree, low, Y(R) == 0, D >= 0, level(D)], level(D + 1))]
        return out


@contract
class Minimum(Lemma):
    """the solution of the stationarity equations minimises the weighted sum of squares,
    and is the only one that does and is 0 at the pinning cast (of a connected region)"""
    func = name = "lemma:minimum"

    def lemmas(self):
        a, b = fun("a", _I, _I), fun("b", _I, _I)
        w, e, x, y, C, J = (fun(q, _I, _R) for q in ("w", "e", "x", "y", "C", "J"))
        J2, Q = fun("J2", _I, _R), fun("Q", _I, _R)
        inn = fun("inn", _I, _B)
        k, k0, E = z3.Ints("k k0 E")
        z = z3.RealVal(0)

        def sq(Jn, f):
            return [Jn(0) == 0, z3.ForAll([k], z3.Implies(k >= 0, Jn(k + 1) == Jn(k) + z3.If(inn(k), w(k) * (e(k) + f(b(k)) - f(a(k))) * (e(k) + f(b(k)) - f(a(k))), z)), patterns=[Jn(k + 1)])]

        d = lambda n: y(n) - x(n)
        term = lambda k: z3.If(inn(k), w(k) * (e(k) + x(b(k)) - x(a(k))), z)
        q = [Q(0) == 0, z3.ForAll([k], z3.Implies(k >= 0, Q(k + 1) == Q(k) + z3.If(inn(k), w(k) * (d(b(k)) - d(a(k))) * (d(b(k)) - d(a(k))), z)), patterns=[Q(k + 1)])]
        h = sq(J, x) + sq(J2, y) + q + crec(C, term, d, a, b)
        pos = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < E), w(k) > 0))
        eq = lambda q: J2(q) - J(q) == Q(q) + 2 * C(q)
        nn = lambda q: z3.Implies(q <= E, Q(q) >= 0)
        # the balance of a cast outside the region is 0
        H, IN, m = fun("H", _I, _I, _R), fun("IN", _I, _B), z3.Int("m")
        both = z3.ForAll([k], inn(k) == z3.And(IN(a(k)), IN(b(k))))
        off = lambda q: z3.Implies(z3.Not(IN(m)), H(q, m) == 0)
        return [("expand.base", h, eq(z3.IntVal(0))), ("expand.step", h + [k0 >= 0, eq(k0)], eq(k0 + 1)),
                ("square.base", q, nn(z3.IntVal(0))), ("square.step", q + [pos, k0 >= 0, nn(k0)], nn(k0 + 1)),
                # lemma:power: C(E) = 0
                ("minimum", [eq(E), nn(E), C(E) == 0, E >= 0], J2(E) >= J(E)),
                # equality only where the differences along the edges agree (then lemma:energy)
                ("equal", [eq(E), C(E) == 0, J2(E) == J(E)], Q(E) == 0),
                ("outside.base", hrec(H, term, a, b) + [both], off(z3.IntVal(0))), ("outside.step", hrec(H, term, a, b) + [both, k0 >= 0, off(k0)], off(k0 + 1))]


def region(c, E, a, b, m, N):
    """IN(x): cast x is one of m"""
    ex = c.ex
    if "IN" not in ex.__dict__:
        ex.IN, ex.RK = fun(ex.unm("IN"), _I, _B), fun(ex.unm("RK"), _I, _I)
        j = z3.Int("j!in")
        mj = Z(m[j])
        ex.axiom(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < N), z3.And(ex.IN(mj), ex.RK(mj) == j)), patterns=[mj]))
        ex.axiom(z3.ForAll([j], z3.Implies(ex.IN(j), z3.And(0 <= ex.RK(j), ex.RK(j) < N, Z(m[ex.RK(j)]) == j)), patterns=[ex.IN(j)]))
    return ex.IN


PE, PAR, DEP = (fun(q, _I, _I) for q in ("PE", "PAR", "DEP"))


class At:
    """a place to prove things at"""

    def __init__(self, ex, st):
        self.ex, self.st = ex, st


def mk_solver(kind, ratio):
    class Solve(Contract):
        path, func = OM, f"_omega_matsolve_{kind}"
        params = ["s", "t", "p", "edges", "ratio", "m", "mref", "eos_s_t"]
        modular = False
        numba = False

        def setup(self, ex, st):
            self.np, self.E, self.N, self.R = np_, E, N, R = z3.Ints("Np E N R")
            st.assume(z3.And(E >= 0, N >= 1, N <= np_, 0 <= R, R < N))
            d = {q: arr(ex, st, q, (np_,)) for q in "stp"}
            d["edges"] = (arr(ex, st, "ea", (E,), "i"), arr(ex, st, "eb", (E,), "i"))
            d["ratio"] = 1.0 if ratio == "one" else fl("ratio") if ratio == "scalar" else arr(ex, st, "ratio", (E,), nan=False)
            d["m"] = arr(ex, st, "m", (N,), "i")
            d["mref"] = z3.Int("mref")
            d["eos_s_t"] = ST
            return d

        def tree(self, c, j, a, b, m):
            e, q = PE(j), PAR(j)
            ab, mj, mq = (Z(a[e]), Z(b[e])), Z(m[j]), Z(m[q])
            return z3.And(0 <= e, e < self.E, 0 <= q, q < self.N, DEP(q) < DEP(j),
                          z3.Or(z3.And(ab[0] == mj, ab[1] == mq), z3.And(ab[0] == mq, ab[1] == mj)))

        def w(self, c, i):
            """the weight handed in: the distance ratio, or its root"""
            r = c.old["ratio"]
            return as_f(r[i] if isinstance(r, ArrV) else r).v

        def requires(self, c):
            a, b = c["edges"]
            m, N = c["m"], self.N
            i, j = z3.Ints("i!t j!t")
            out = [("nodes", forall(i, IMP(inr(0, i, self.E), AND(inr(0, a[i], self.np), inr(0, b[i], self.np))))),
                   ("region", forall(i, IMP(inr(0, i, N), inr(0, m[i], self.np)))),
                   ("distinct", forall([i, j], IMP(AND(0 <= i, i < j, j < N), Z(m[i]) != Z(m[j])))),
                   ("pinning-cast", Z(m[self.R]) == Z(c["mref"])),
                   # a spanning tree of the region: every cast but the pinning cast has an
                   # edge (pe) of the region to a cast (par) nearer (dep) to it
                   ("connected", forall(i, IMP(AND(inr(0, i, N), i != self.R), self.tree(c, i, a, b, m)))),
                   ("connected-from-0", forall(i, IMP(inr(0, i, N), DEP(i) >= 0), [DEP(i)])),
                   ("wet", forall(i, IMP(inr(0, i, N), AND(*[NOT(as_f(c[q][m[i]]).n) for q in "stp"]))))]
            r = c["ratio"]
            if isinstance(r, ArrV):
                out.append(("ratio", forall(i, IMP(inr(0, i, self.E), as_f(r[i]).v > 0))))
            elif ratio == "scalar":
                out.append(("ratio", as_f(r).v > 0))
            return out

        def ensures(self, c):
            ex, o = c.ex, c.old
            a, b = o["edges"]
            m, N, E = o["m"], self.N, self.E
            IN = region(c, E, a, b, m, N)
            phi = c.res
            j, x = z3.Ints("j!e x!e")
            w = (lambda i: self.w(c, i)) if kind == "poisson" else (lambda i: self.w(c, i) * self.w(c, i))
            eps = lambda i: eps_spec(ST, o["s"], o["t"], o["p"], a[i], b[i]).v
            ph = lambda x: as_f(phi[x]).v
            A, B = (lambda i: Z(a[i])), (lambda i: Z(b[i]))
            inn = lambda i: z3.And(IN(A(i)), IN(B(i)))
            # G(i, n): derivative (halved) with respect to the correction of cast n of
            # the sum over the first i edges that lie in the region
            G = fun(ex.unm("G"), _I, _I, _R)
            z = z3.RealVal(0)
            term = lambda i: z3.If(inn(i), w(i) * (eps(i) + ph(B(i)) - ph(A(i))), z)
            for f in hrec(G, term, A, B):
                ex.axiom(f)
            self.prove(c, G, A, B, inn, w, eps, ph, m, N, E)
            out = [("shape", AND(len(phi.shape) == 1, Z(phi.shape[0]) == self.np)),
                   ("outside", forall(x, IMP(AND(inr(0, x, self.np), NOT(IN(x))), as_f(phi[x]).n))),
                   ("inside", forall(j, IMP(inr(0, j, N), NOT(as_f(phi[m[j]]).n)))),
                   ("pinned", AND(NOT(as_f(phi[o["mref"]]).n), ph(Z(o["mref"])) == 0)),
                   ("stationary", forall(j, IMP(inr(0, j, N), G(E, Z(m[j])) == 0)))]
            return out + [(q + "-kept", kept(c, q)) for q in "stpm"]

        def by_edges(self, c, label, H, tJ, J, inJ, cnt):
            """the equation of row J as the balance H of the edges plus what does not
            depend on the edges (which is returned)"""
            sums = {q[0].name() for q in c.ex.aggs.values()}
            apps = {}

            def collect(t):
                if z3.is_app(t):
                    if t.decl().name() in sums and z3.simplify(t.arg(0) == cnt).eq(z3.BoolVal(True)):
                        apps[t.get_id()] = t
                    for q in t.children():
                        collect(q)

            collect(tJ)
            part = lambda k: z3.substitute(tJ, *[(t, t.decl()(k, t.arg(1))) for t in apps.values()]) if apps else tJ
            rest = part(z3.IntVal(0))
            induct(c, label, lambda k: z3.Implies(inJ, H(k, J) + part(k) == rest), cnt, [J])
            return rest

        def full_rank(self, c, solve, J, inJ, w, sel, CB, inn, at, bt, cnt, N):
            """only 0 is sent to 0 by the matrix (as it was before it was solved)"""
            ex, s0, R = c.ex, c.st, self.R
            Y = fun(ex.unm("Y"), _I, _R)
            H = fun(ex.unm("HY"), _I, _I, _R)
            for f in hrec(H, lambda k: w(sel(k)) * (Y(bt(k)) - Y(at(k))), at, bt):
                ex.axiom(f)
            tJ = solve["row"](Y, J)
            rest = self.by_edges(c, "full-rank", H, tJ, J, inJ, cnt)
            s0.assume(z3.ForAll([J], z3.Implies(inJ, tJ == 0)))
            s0.assume(z3.Implies(inJ, tJ == 0))
            restR = z3.substitute(rest, (J, R))
            have(c, "full-rank.balance", z3.Implies(inJ, H(cnt, J) == z3.If(J == R, restR, z3.RealVal(0))))
            # lemma:balance
            s0.assume(restR == 0)
            have(c, "full-rank.pinned", Y(R) == 0)
            have(c, "full-rank.balanced", z3.Implies(inJ, H(cnt, J) == 0))
            k = z3.Int("k!fr")
            have(c, "full-rank.weights", forall(k, IMP(inr(0, k, cnt), w(sel(k)) > 0)))
            # lemma:power, lemma:energy
            s0.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt), Y(at(k)) == Y(bt(k))), patterns=[sel(k)]))
            e = PE(J)
            nr = z3.And(inJ, J != R)
            have(c, "full-rank.tree-edge", z3.Implies(nr, z3.And(inn(e), sel(CB(e)) == e, 0 <= CB(e), CB(e) < cnt)))
            have(c, "full-rank.tree", z3.Implies(nr, z3.And(0 <= PAR(J), PAR(J) < N, DEP(PAR(J)) < DEP(J), Y(PAR(J)) == Y(J))))
            # lemma:energy (tree): Y is 0

        def prove(self, c, G, A, B, inn, w, eps, ph, m, N, E):
            ex, st, R = c.ex, c.st, self.R
            J = z3.Int(ex.nm("J"))
            inJ = z3.And(0 <= J, J < N)
            solves = st.ghost.get("solves", ())
            if not solves:
                # one cast: only loops, which cancel
                induct(c, "loops", lambda k: z3.Implies(inJ, G(k, Z(m[J])) == 0), E, [J])
                return
            x, eq = solves[-1]["x"], solves[-1]["eq"]
            masks = [q for q in st.ghost.get("masks", ()) if z3.simplify(ex.masks[q][6] == E).eq(z3.BoolVal(True))]
            if not masks:
                raise Unsupported("no selection of the edges of the region")
            key = masks[-1]
            sel, inv, cnt, _, _, g, n = ex.masks[key]
            CB = NPM.mask_prefix(ex, key, g, n)
            i = z3.Int("i!pr")
            # what does not depend on the solution is proved without it
            s0 = solves[-1].get("st0", st)
            c0 = At(ex, s0)
            RK = ex.RK
            at, bt = (lambda k: RK(A(sel(k)))), (lambda k: RK(B(sel(k))))
            n0 = len(s0.pc)
            have(c0, "selected-edges", forall(i, IMP(inr(0, i, E), g(i) == inn(i))))
            have(c0, "ranks", forall(i, IMP(inr(0, i, cnt), z3.And(0 <= at(i), at(i) < N, 0 <= bt(i), bt(i) < N, Z(m[at(i)]) == A(sel(i)), Z(m[bt(i)]) == B(sel(i))))))
            if s0 is not st:
                for f in s0.pc[n0:]:
                    st.assume(f)
                self.full_rank(c0, solves[-1], J, inJ, w, sel, CB, inn, at, bt, cnt, N)
            H = fun(ex.unm("H"), _I, _I, _R)
            gk = lambda k: w(sel(k)) * (eps(sel(k)) + x(bt(k)) - x(at(k)))
            for f in hrec(H, gk, at, bt):
                ex.axiom(f)
            tJ = eq(J)
            rest = self.by_edges(c, "equation", H, tJ, J, inJ, cnt)
            restR = z3.substitute(rest, (J, R))
            # an instance of the solver's contract
            st.assume(z3.Implies(inJ, tJ == 0))
            have(c, "balance", z3.Implies(inJ, H(cnt, J) == z3.If(J == R, restR, z3.RealVal(0))))
            # lemma:balance
            st.assume(restR == 0)
            have(c, "pinned", x(R) == 0)
            have(c, "solution", forall(i, IMP(inr(0, i, N), ph(Z(m[i])) == x(i))))
            st.assume(z3.ForAll([J], z3.Implies(inJ, H(cnt, J) == 0)))
            induct(c, "all-edges", lambda k: z3.Implies(inJ, G(k, Z(m[J])) == H(CB(k), J)), E, [J],
                   lambda k: [z3.Implies(inn(k), z3.And(CB(k + 1) == CB(k) + 1, sel(CB(k)) == k, 0 <= CB(k), CB(k) < cnt)),
                              z3.Implies(z3.Not(inn(k)), CB(k + 1) == CB(k)),
                              z3.Implies(z3.And(inJ, inn(k)), z3.And((at(CB(k)) == J) == (A(k) == Z(m[J])), (bt(CB(k)) == J) == (B(k) == Z(m[J])))),
                              z3.Implies(inn(k), z3.And(ph(A(k)) == x(at(CB(k))), ph(B(k)) == x(bt(CB(k))))),
                              z3.Implies(inn(k), H(CB(k) + 1, J) == H(CB(k), J) + z3.If(at(CB(k)) == J, gk(CB(k)), z3.RealVal(0)) - z3.If(bt(CB(k)) == J, gk(CB(k)), z3.RealVal(0))),
                              z3.Implies(inn(k), gk(CB(k)) == w(k) * (eps(k) + ph(B(k)) - ph(A(k)))),
                              z3.Implies(z3.And(inJ, inn(k)), H(CB(k) + 1, J) == H(CB(k), J) + z3.If(A(k) == Z(m[J]), w(k) * (eps(k) + ph(B(k)) - ph(A(k))), z3.RealVal(0))
                                         - z3.If(B(k) == Z(m[J]), w(k) * (eps(k) + ph(B(k)) - ph(A(k))), z3.RealVal(0)))])

    Solve.name = f"{OM}:_omega_matsolve_{kind}[{ratio}]"
    contract(Solve)


for _k in ("poisson", "gradient"):
    for _r in ("one", "scalar", "each"):
        mk_solver(_k, _r)
