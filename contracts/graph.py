"""Contracts of neutralocean/grid/graph.py"""
from .base import *  # noqa

GRF = "neutralocean/grid/graph.py"
_I = z3.IntSort()


def occ(a, b, i, n):
    """how often node n occurs in edge i"""
    return z3.If(Z(a[i]) == n, 1, 0) + z3.If(Z(b[i]) == n, 1, 0)


def cnt_fn(ex, a, b):
    """CNT(m, n): occurrences of node n in the first m edges.  The second axiom is
    the lemma graph-count, proved by induction."""
    tab = ex.__dict__.setdefault("cnts", {})
    key = (id(a.content), id(b.content))
    if key not in tab:
        C = z3.Function(ex.unm("CNT"), _I, _I, _I)
        m, i, n = z3.Ints("m!c i!c n!c")
        ex.axiom(z3.ForAll([n], C(0, n) == 0, patterns=[C(0, n)]))
        ex.axiom(z3.ForAll([m, n], z3.Implies(m >= 0, C(m + 1, n) == C(m, n) + occ(a, b, m, n)), patterns=[C(m + 1, n)]))
        ex.axiom(z3.ForAll([m, n], z3.Implies(m >= 0, C(m, n) >= 0), patterns=[C(m, n)]))
        ex.axiom(z3.ForAll([i, m, n], z3.Implies(z3.And(0 <= i, i < m), C(i, n) + occ(a, b, i, n) <= C(m, n)),
                           patterns=[z3.MultiPattern(C(i, n), C(m, n))]))
        tab[key] = (C, a, b)
    return tab[key][0]


@contract
class CountLemma(Lemma):
    func = name = "lemma:graph-count"

    def lemmas(self):
        E_ = z3.Int("E")
        a = ArrV(fresh_content("a", (E_,), "i", name="a"))
        b = ArrV(fresh_content("b", (E_,), "i", name="b"))
        C = z3.Function("CNT", _I, _I, _I)
        i, m, n, q = z3.Ints("i m n q")
        dfn = [z3.ForAll([n], C(0, n) == 0), z3.ForAll([m, n], z3.Implies(m >= 0, C(m + 1, n) == C(m, n) + occ(a, b, m, n)), patterns=[C(m + 1, n)])]
        yield "nonneg-step", dfn + [m >= 0, C(m, q) >= 0], C(m + 1, q) >= 0
        yield "mono-base", dfn + [i >= 0], C(i, q) + occ(a, b, i, q) <= C(i + 1, q)
        yield "mono-step", dfn + [i >= 0, m > i, C(i, q) + occ(a, b, i, q) <= C(m, q)], C(i, q) + occ(a, b, i, q) <= C(m + 1, q)
        # every place of a node below its count is that of an end of an edge
        P = z3.Function("indptr", _I, _I)
        k, e = z3.Ints("k e")
        one = lambda k: z3.Implies(z3.And(P(q) <= e, e < P(q) + C(k, q)), z3.Exists([i], z3.And(0 <= i, i < k, at_place(P, C, a, b, i, q, e))))
        yield "filled-base", dfn, one(z3.IntVal(0))
        yield "filled-step", dfn + [k >= 0, one(k)], one(k + 1)
        # the places assigned to the half edges are inside the node's segment and
        # pairwise different, hence (their number being the length) exactly the segment
        P = z3.Function("indptr", _I, _I)
        N = z3.Int("N")
        fin = [z3.ForAll([n], z3.Implies(z3.And(0 <= n, n < N), P(n + 1) == P(n) + C(E_, n)), patterns=[P(n + 1)]),
               z3.ForAll([n, q], z3.Implies(z3.And(0 <= n, n <= q, q <= N), P(n) <= P(q)), patterns=[z3.MultiPattern(P(n), P(q))]),
               z3.ForAll([i, m, n], z3.Implies(z3.And(0 <= i, i < m), C(i, n) + occ(a, b, i, n) <= C(m, n)), patterns=[z3.MultiPattern(C(i, n), C(m, n))]),
               z3.ForAll([m, n], z3.Implies(m >= 0, C(m, n) >= 0), patterns=[C(m, n)])]
        e, f = z3.Ints("e f")
        ok = lambda x: [0 <= x, x < E_, 0 <= Z(a[x]), Z(a[x]) < N, 0 <= Z(b[x]), Z(b[x]) < N]
        pa, pb = (lambda x: place(P, C, a, b, x, 0)), (lambda x: place(P, C, a, b, x, 1))
        touch = [P(Z(a[e]) + 1) == P(Z(a[e]) + 1), P(Z(b[e]) + 1) == P(Z(b[e]) + 1)]
        yield "inside-a", fin + ok(e), z3.And(P(Z(a[e])) <= pa(e), pa(e) < P(Z(a[e]) + 1))
        yield "inside-b", fin + ok(e), z3.And(P(Z(b[e])) <= pb(e), pb(e) < P(Z(b[e]) + 1))
        seg = lambda x, y, u, v: fin + ok(e) + ok(f) + [
            P(u) <= x, x < P(u + 1), P(v) <= y, y < P(v + 1)]
        yield "disjoint-aa", seg(pa(e), pa(f), Z(a[e]), Z(a[f])) + [e < f], pa(e) != pa(f)
        yield "disjoint-bb", seg(pb(e), pb(f), Z(b[e]), Z(b[f])) + [e < f], pb(e) != pb(f)
        yield "disjoint-ab", seg(pa(e), pb(f), Z(a[e]), Z(b[f])), pa(e) != pb(f)


def place(P, C, a, b, i, side):
    na, nb = Z(a[i]), Z(b[i])
    if side == 0:
        return P(na) + C(i, na)
    return P(nb) + C(i, nb) + z3.If(na == nb, 1, 0)


def at_place(p, C, a, b, i, n, e):
    """place e is the one of an end of edge i at node n"""
    return z3.Or(z3.And(Z(a[i]) == n, e == place(p, C, a, b, i, 0)), z3.And(Z(b[i]) == n, e == place(p, C, a, b, i, 1)))


def edge_at(ex, a, b, C, p, N, E_):
    """EDGE(n, e): the edge whose end lies at place e of node n (lemma:graph-count, filled)"""
    I = z3.Function(ex.unm("EDGE"), _I, _I, _I)
    n, e = z3.Ints("n!o e!o")
    i = I(n, e)
    ex.axiom(z3.ForAll([n, e], z3.Implies(z3.And(0 <= n, n < N, p(n) <= e, e < p(n) + C(E_, n)), z3.And(0 <= i, i < E_, at_place(p, C, a, b, i, n, e))), patterns=[i]))
    return I


class _CSR(Contract):
    path, func = GRF, "edges_to_csr"
    params = ["edges", "N"]
    modular = False
    given = True

    def setup(self, ex, st):
        E_, N = z3.Ints("E N")
        st.assume(E_ >= (0 if self.given else 1))
        d = {"edges": (arr(ex, st, "a", (E_,), "i"), arr(ex, st, "b", (E_,), "i"))}
        if self.given:
            st.assume(N >= 0)
            d["N"] = N
        return d

    def requires(self, c):
        a, b = c["edges"]
        i = z3.Int("i!r")
        hi = (lambda x: z3.And(x >= 0, x < z3.Int("N"))) if self.given else (lambda x: x >= 0)
        return [("nodes", forall(i, IMP(inr(0, i, a.shape[0]), AND(hi(Z(a[i])), hi(Z(b[i]))))))]

    def ensures(self, c):
        a, b = c.old["edges"]
        P, X = c.res
        E_ = Z(a.shape[0])
        C = cnt_fn(c.ex, a, b)
        N = Z(P.shape[0]) - 1
        n, i = z3.Ints("n!e i!e")
        p = lambda x: Z(P[x])
        I = edge_at(c.ex, a, b, C, p, N, E_)
        out = []
        if self.given:
            out.append(("nodes", N == z3.Int("N")))
        else:
            out.append(("covers", forall(i, IMP(inr(0, i, E_), AND(Z(a[i]) < N, Z(b[i]) < N)))))
        return out + [
            ("start", p(0) == 0),
            ("degrees", forall(n, IMP(inr(0, n, N), p(n + 1) == p(n) + C(E_, n)))),
            ("monotone", forall([n, i], IMP(AND(0 <= n, n <= i, i <= N), p(n) <= p(i)))),
            ("size", Z(X.shape[0]) == p(N)),
            ("first-end", forall(i, IMP(inr(0, i, E_), Z(X[place(p, C, a, b, i, 0)]) == Z(b[i])))),
            ("second-end", forall(i, IMP(inr(0, i, E_), Z(X[place(p, C, a, b, i, 1)]) == Z(a[i])))),
            # the neighbours listed for a node are other ends of edges at it
            ("only-edges", forall([n, i], IMP(AND(inr(0, n, N), p(n) <= i, i < p(n) + C(E_, n)), z3.And(0 <= I(n, i), I(n, i) < E_,
                z3.Or(z3.And(Z(a[I(n, i)]) == n, Z(b[I(n, i)]) == Z(X[i])), z3.And(Z(b[I(n, i)]) == n, Z(a[I(n, i)]) == Z(X[i])))))),
             ),
        ]

    def inv0(c):
        a, b = c.old["edges"]
        C = cnt_fn(c.ex, a, b)
        n = z3.Int("n!e")
        yield "deg", lambda: forall(n, IMP(inr(0, n, c["deg"].shape[0]), Z(c["deg"][n]) == C(Z(c["#next"]), n)))

    def inv1(c):
        a, b = c.old["edges"]
        C = cnt_fn(c.ex, a, b)
        n, q = z3.Ints("n!e q!e")
        k = lambda: Z(c["#next"])
        p = lambda x: Z(c["indptr"][x])
        yield "start", lambda: p(0) == 0
        yield "step", lambda: forall(n, IMP(inr(0, n, k()), p(n + 1) == p(n) + Z(c["deg"][n])))
        yield "mono", lambda: forall([n, q], IMP(AND(0 <= n, n <= q, q <= k()), p(n) <= p(q)))
        yield "sum", lambda: p(k()) == NPM.sum_term(c.ex, c.st, c.raw("deg"))[0](k())

    def inv2(c):
        a, b = c.old["edges"]
        C = cnt_fn(c.ex, a, b)
        n, i = z3.Ints("n!e i!e")
        k = lambda: Z(c["#next"])
        p = lambda x: Z(c["indptr"][x])
        yield "ctr", lambda: forall(n, IMP(inr(0, n, SUB(c["indptr"].shape[0], 1)), Z(c["ctr"][n]) == p(n) + C(k(), n)))
        yield "first", lambda: forall(i, IMP(inr(0, i, k()), Z(c["indices"][place(p, C, a, b, i, 0)]) == Z(b[i])))
        yield "second", lambda: forall(i, IMP(inr(0, i, k()), Z(c["indices"][place(p, C, a, b, i, 1)]) == Z(a[i])))

    loops = [LoopSpec(inv0), LoopSpec(inv1), LoopSpec(inv2)]


for _g in (True, False):
    UNITS.append(type("CSR", (_CSR,), dict(given=_g, name=f"{GRF}:edges_to_csr[{'N given' if _g else 'N from edges'}]"))())


def mk_bin(rank):
    class Bin(Contract):
        path, func = GRF, "graph_binary_fcn"
        params = ["edges", "nodevals", "binary_fcn"]
        modular = False

        def setup(self, ex, st):
            m = z3.Int("m")
            self.f = ffun("bin", 2)
            sh = [z3.Int(f"n{i}") for i in range(rank)]
            for x in sh + [m]:
                st.assume(x >= 0)
            self.ex = ex
            return {"edges": (arr(ex, st, "a", (m,), "i"), arr(ex, st, "b", (m,), "i")), "nodevals": arr(ex, st, "v", sh), "binary_fcn": self.f}

        def requires(self, c):
            a, b = c["edges"]
            i = z3.Int("i!r")
            n = c["nodevals"].size
            return [("nodes", forall(i, IMP(inr(0, i, a.shape[0]), AND(inr(0, a[i], n), inr(0, b[i], n)))))]

        def val(self, c, i):
            a, b = c.old["edges"]
            v = c.old["nodevals"]
            g = (lambda k: v[k]) if rank == 1 else (lambda k: v[NPM.udivmod(self.ex, k, v.shape[1])])
            return self.f.scal(g(Z(a[i])), g(Z(b[i])))

        def ensures(self, c):
            a, b = c.old["edges"]
            i = z3.Int("i!e")
            return [("length", Z(c.res.shape[0]) == Z(a.shape[0])),
                    ("value", forall(i, IMP(inr(0, i, a.shape[0]), feq(c.res[i], self.val(c, i)))))]

        def __init__(self):
            def inv(c):
                i = z3.Int("i!e")
                yield "done", lambda: forall(i, IMP(inr(0, i, c["#next"]), feq(c["ev"][i], self.val(c, i))))

            self.loops = [LoopSpec(inv)]

    Bin.name = f"{GRF}:graph_binary_fcn[rank={rank}]"
    contract(Bin)


for _r in (1, 2):
    mk_bin(_r)
