"""Contracts of neutralocean/bfs.py"""
from .base import *  # noqa
from vpy import lift as L
from .arrays import kept
from .vert import mono_rows, t_ok, vrange, ppc_fn, TRJ, snap, Cast

BFS = "neutralocean/bfs.py"


# ------------------------------------------------------------------ counting
def count(ex, A):
    """number of True in the bool array A (an uninterpreted number with the facts
    of lemma:count)"""
    tab = ex.__dict__.setdefault("counts", {})
    N = Z(A.shape[0])
    g = lambda i: Z(A[i])
    t = g(L.can(1)[0])
    key = (t.get_id(), z3.simplify(N).get_id())
    if key in tab:
        return tab[key][0]
    C = z3.Int(ex.unm("COUNT"))
    tab[key] = (C, A, t, N)
    i, n = z3.Ints("i!ct n!ct")
    ax = lambda f: ex.axiom(f, [C])
    ax(z3.And(0 <= C, z3.Implies(N >= 0, C <= N)))
    pat = _pats(g(n), n)
    ax(z3.ForAll([n], z3.Implies(z3.And(0 <= n, n < N, g(n)), C >= 1), patterns=pat))
    ax(z3.Implies(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), z3.Not(g(i)))), C == 0))
    # the arrays this one was made from by negation and stores
    for f in _leaves(t):
        for sign in (True, False):
            B = ArrV(Content(A.shape, "b", lambda j, f=f, sign=sign: f(Z(j[0])) if sign else NOT(f(Z(j[0])))))
            if z3.eq(z3.simplify(Z(B[L.can(1)[0]])), z3.simplify(t)):
                if not sign:
                    D = count(ex, ArrV(Content(A.shape, "b", lambda j, f=f: f(Z(j[0])))))
                    ax(z3.Implies(N >= 0, C == N - D))
                break
        else:
            for sign in (True, False):
                B = ArrV(Content(A.shape, "b", lambda j, f=f, sign=sign: f(Z(j[0])) if sign else NOT(f(Z(j[0])))))
                D = count(ex, B)
                h = lambda i: Z(B[i])
                one = lambda b: z3.If(b, 1, 0)
                agree = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N, i != n), g(i) == h(i)))
                ax(z3.ForAll([n], z3.Implies(z3.And(0 <= n, n < N, agree), C == D - one(h(n)) + one(g(n))), patterns=_pats(h(n), n)))
                ax(z3.Implies(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), g(i) == h(i))), C == D))
    return C


def _leaves(t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and z3.is_bool(x) and x.arg(0).eq(L.can(1)[0]):
            out.append(x.decl())
        todo.extend(x.children())
    return out


def _pats(t, n):
    """trigger: an uninterpreted application to n inside t"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and x.arg(0).eq(n):
            return [x]
        todo.extend(x.children())
    return []


@contract
class CountLemma(Lemma):
    """facts about the number of True values, from its definition, by induction"""

    func = name = "lemma:count"

    def lemmas(self):
        _I, _B = z3.IntSort(), z3.BoolSort()
        C, D = z3.Function("C", _I, _I), z3.Function("D", _I, _I)
        g, h = z3.Function("g", _I, _B), z3.Function("h", _I, _B)
        i, m, n = z3.Ints("i m n")
        one = lambda b: z3.If(b, 1, 0)
        dfn = lambda F_, f: [F_(0) == 0, z3.ForAll([i], z3.Implies(i >= 0, F_(i + 1) == F_(i) + one(f(i))), patterns=[F_(i + 1)])]
        yield "bounds-step", dfn(C, g) + [m >= 0, 0 <= C(m), C(m) <= m], z3.And(0 <= C(m + 1), C(m + 1) <= m + 1)
        yield "one-step", dfn(C, g) + [0 <= n, n < m + 1, g(n), 0 <= C(m), z3.Implies(n < m, C(m) >= 1)], C(m + 1) >= 1
        none = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m + 1), z3.Not(g(i))))
        yield "none-step", dfn(C, g) + [m >= 0, none, C(m) == 0], C(m + 1) == 0
        agree = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m + 1, i != n), g(i) == h(i)))
        claim = lambda q: C(q) == z3.If(z3.And(0 <= n, n < q), D(q) - one(h(n)) + one(g(n)), D(q))
        other = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m + 1), g(i) != h(i)))
        yield "complement-step", dfn(C, g) + dfn(D, h) + [m >= 0, other, C(m) == m - D(m)], C(m + 1) == m + 1 - D(m + 1)
        # a set closed under good neighbours that holds the start of a path holds all of it
        S, nbr, good = z3.Function("S", _I, _B), z3.Function("nbr", _I, _I, _B), z3.Function("good", _I, _B)
        path = z3.Function("path", _I, _I)
        closed = z3.ForAll([i, n], z3.Implies(z3.And(S(i), nbr(i, n), good(n)), S(n)))
        yield "reach-step", [closed, S(path(m)), nbr(path(m), path(m + 1)), good(path(m + 1))], S(path(m + 1))
        yield "store-base", dfn(C, g) + dfn(D, h) + [0 <= n], claim(z3.IntVal(0))
        yield "store-step", dfn(C, g) + dfn(D, h) + [m >= 0, 0 <= n, agree, claim(m)], claim(m + 1)


# ------------------------------------------------------------------ graph
def graph_req(indptr, indices, N):
    a, b, e = z3.Ints("a!g b!g e!g")
    p = lambda i: Z(indptr[i])
    return [("indptr-size", Z(indptr.shape[0]) == N + 1), ("indptr-start", p(0) == 0),
            ("indptr-monotone", forall([a, b], IMP(AND(0 <= a, a <= b, b <= N), p(a) <= p(b)))),
            ("indptr-end", p(N) == Z(indices.shape[0])),
            ("indices", forall(e, IMP(inr(0, e, indices.shape[0]), inr(0, indices[e], N))))]


def seg(indptr, m, e):
    return inr(indptr[m], e, indptr[Z(m) + 1])


LABS = ("bounds", "members", "distinct", "subset", "found", "first", "earlier", "closed")


def bfs_facts(c, N, root, indptr, indices, good0, good, qu, qt, qh, cur=None):
    """the state of the search: qu[0..qt] are the nodes reached, qu[0..qh] those whose
    neighbours have been looked at; cur: how many neighbours of qu[qh] have been"""
    k, j, n, e = z3.Ints("k!b j!b n!b e!b")
    q = lambda i: Z(qu[i])
    g0 = lambda n: Z(good0[n])
    g = lambda n: Z(good[n])
    qt, qh = Z(qt), Z(qh)
    done = inr(0, k, qh + 1) if cur is None else inr(0, k, qh)
    closed = forall([k, e], IMP(AND(done, seg(indptr, q(k), e)), NOT(g(Z(indices[e])))))
    if cur is not None:
        m, kk = cur
        closed = AND(closed, forall(e, IMP(inr(indptr[m], e, Z(indptr[m]) + Z(kk)), NOT(g(Z(indices[e]))))))
    return {
        "bounds": AND(-1 <= qh, qh <= qt, qt < N),
        "members": forall(k, IMP(AND(0 <= k, k <= qt), AND(inr(0, q(k), N), g0(q(k)), NOT(g(q(k)))))),
        "distinct": forall([k, j], IMP(AND(0 <= k, k < j, j <= qt), q(k) != q(j))),
        "subset": forall(n, IMP(AND(inr(0, n, N), g(n)), g0(n))),
        "found": forall(n, IMP(AND(inr(0, n, N), g0(n), NOT(g(n))), z3.Exists([k], z3.And(0 <= k, k <= qt, q(k) == n)))),
        "first": AND(IMP(qt >= 0, q(0) == Z(root)), IFF(qt >= 0, g0(Z(root)))),
        "earlier": forall(k, IMP(AND(1 <= k, k <= qt), z3.Exists([j, e], Z(AND(0 <= j, j < k, seg(indptr, q(j), e), Z(indices[e]) == q(k)))))),
        "closed": closed,
    }


@contract
class Conn1(Contract):
    path, func = BFS, "bfs_conncomp1"
    params = ["indptr", "indices", "root", "good"]

    def setup(self, ex, st):
        N, M, r = z3.Ints("N M root")
        st.assume(z3.And(N >= 1, M >= 0))
        return {"indptr": arr(ex, st, "indptr", (N + 1,), "i"), "indices": arr(ex, st, "indices", (M,), "i"),
                "root": r, "good": arr(ex, st, "good", (N,), "b")}

    def requires(self, c):
        N = Z(c["good"].shape[0])
        return graph_req(c["indptr"], c["indices"], N) + [("root", inr(0, c["root"], N))]

    def state(self, c, cur=None):
        o = c.old
        return bfs_facts(c, Z(o["good"].shape[0]), o["root"], o["indptr"], o["indices"], o["good"], c["good"], c["qu"], c["qt"], c["qh"], cur)

    def inv0(self, c):
        for q in LABS:
            yield q, lambda q=q: self.state(c)[q]
        yield "room", lambda: Z(c["qt"]) + 1 + count(c.ex, c["good"]) <= Z(c["good"].shape[0])

    def inv1(self, c):
        cur = lambda: (c["m"], c["#k"])
        for q in LABS:
            yield q, lambda q=q: self.state(c, cur())[q]
        yield "room", lambda: Z(c["qt"]) + 1 + count(c.ex, c["good"]) <= Z(c["good"].shape[0])
        yield "here", lambda: AND(Z(c["qh"]) >= 0, Z(c["m"]) == Z(c["qu"][Z(c["qh"])]))

    def __init__(self):
        self.loops = [LoopSpec(self.inv0), LoopSpec(self.inv1)]

    def ensures(self, c):
        o = c.old
        r = c.res
        N = Z(o["good"].shape[0])
        n = Z(r.shape[0])
        f = bfs_facts(c, N, o["root"], o["indptr"], o["indices"], o["good"], c["good"], r, n - 1, n - 1)
        k, j, e, x = z3.Ints("k!b j!b e!b x!b")
        out = [(q, f[q]) for q in LABS]
        # the nodes found are closed under good neighbours: with the root, and by
        # induction on paths, they are all the nodes connected to it
        nb = Z(o["indices"][e])
        out.append(("complete", forall([k, e], IMP(AND(inr(0, k, n), seg(o["indptr"], Z(r[k]), e), Z(o["good"][nb])),
                                                   z3.Exists([j], z3.And(0 <= j, j < n, Z(r[j]) == nb))))))
        return out + [("indptr-kept", kept(c, "indptr")), ("indices-kept", kept(c, "indices"))]


# ------------------------------------------------------------------ wetting while searching
WLABS = ("bounds", "members", "distinct", "flags", "found", "frame", "first", "earlier", "closed")


class _Wet(Contract):
    options = {"strong": True}

    def ocean(self, ex, st):
        N, M, E_, r = z3.Ints("N M E root")
        st.assume(z3.And(N >= 1, M >= 0, E_ >= 0))
        d = {q: arr(ex, st, q + "0", (N,)) for q in "stp"}
        d.update(indptr=arr(ex, st, "indptr", (N + 1,), "i"), indices=arr(ex, st, "indices", (E_,), "i"), root=r)
        d.update({q: arr(ex, st, q, (N, M)) for q in "STP"})
        d.update(tol_p=fl("tol_p"), eos=ffun("eos", 3, nan="total"), ppc_fn=ppc_fn(), p_ml=arr(ex, st, "p_ml", (N,)))
        return d

    def requires(self, c):
        N = Z(c["S"].shape[0])
        n = z3.Int("n!c")
        return graph_req(c["indptr"], c["indices"], N) + [
            ("root", inr(0, c["root"], N)), ("pressure-increases", mono_rows(c["P"], c["S"])), ("t-valid", t_ok(c["S"], c["T"], c["P"])),
            ("tol", as_f(c["tol_p"]).v >= 0),
            ("surface", forall(n, IMP(AND(inr(0, n, N), NOT(as_f(c["p"][n]).n)), AND(NOT(as_f(c["s"][n]).n), NOT(as_f(c["t"][n]).n)))))]

    def link(self, c, b, n):
        """the neutral link from bottle b to cast n, as _ntp_bottle_to_cast gives it"""
        o = c.old
        S, T, P = o["S"][n], o["T"][n], o["P"][n]
        k, K = vrange(c, S, P)
        return c.app(c.ex.repo_fn(TRJ, "_ntp_bottle_to_cast"), *b, snap(c, S), snap(c, T), snap(c, P), k, K, o["tol_p"], o["eos"], o["ppc_fn"]), K - k > 1


@contract
class ConnWet(_Wet):
    path, func = BFS, "bfs_conncomp1_wet"
    params = ["s", "t", "p", "indptr", "indices", "root", "S", "T", "P", "tol_p", "eos", "ppc_fn", "p_ml"]

    def setup(self, ex, st):
        return self.ocean(ex, st)

    def facts(self, c, qu, qt, qh, good, dry, cur=None):
        o = c.old
        N = Z(o["S"].shape[0])
        ip, ix = o["indptr"], o["indices"]
        s, t, p = c["s"], c["t"], c["p"]
        k, j, n, e = z3.Ints("k!b j!b n!b e!b")
        q = lambda i: Z(qu[i])
        wet0 = lambda n: NOT(as_f(o["p"][n]).n)
        wet = lambda n: NOT(as_f(p[n]).n)
        g, d = (lambda n: Z(good[n]) if good is not None else False), (lambda n: Z(dry[n]) if dry is not None else False)
        qt, qh = Z(qt), Z(qh)
        done = inr(0, k, qh + 1) if cur is None else inr(0, k, qh)
        nb = Z(ix[e])
        closed = forall([k, e], IMP(AND(done, seg(ip, q(k), e)), NOT(g(nb))))
        if cur is not None:
            m, kk = cur
            closed = AND(closed, forall(e, IMP(inr(ip[m], e, Z(ip[m]) + Z(kk)), NOT(g(nb)))))
        x = q(k)
        y = q(j)
        (ls, lt, lp), wide = self.link(c, (s[y], t[y], p[y]), x)
        ml = as_f(o["p_ml"][x])
        linked = AND(wide, feq(s[x], ls), feq(t[x], lt), feq(p[x], lp), NOT(ml.n), as_f(p[x]).v > ml.v)
        return {
            "bounds": AND(-1 <= qh, qh <= qt, qt < N),
            "members": forall(k, IMP(AND(0 <= k, k <= qt), AND(inr(0, x, N), wet(x), NOT(g(x)), NOT(d(x))))),
            "distinct": forall([k, j], IMP(AND(0 <= k, k < j, j <= qt), q(k) != q(j))),
            "flags": forall(n, IMP(inr(0, n, N), AND(IMP(g(n), wet0(n)), IMP(d(n), AND(NOT(wet0(n)), NOT(wet(n)))), IMP(wet0(n), wet(n))))),
            "found": forall(n, IMP(AND(inr(0, n, N), wet(n), NOT(g(n))), z3.Exists([k], z3.And(0 <= k, k <= qt, q(k) == n)))),
            "frame": forall(n, IMP(AND(inr(0, n, N), OR(wet0(n), NOT(wet(n)))), AND(*[feq(v[n], o[w][n]) for v, w in ((s, "s"), (t, "t"), (p, "p"))]))),
            "first": AND(IMP(qt >= 0, q(0) == Z(o["root"])), IFF(qt >= 0, wet0(o["root"]))),
            "earlier": forall(k, IMP(AND(1 <= k, k <= qt), z3.Exists([j, e], Z(AND(0 <= j, j < k, seg(ip, y, e), nb == x, IMP(NOT(wet0(x)), linked)))))),
            "closed": closed,
        }

    def wetcount(self, c, p):
        N = p.shape[0]
        return count(c.ex, ArrV(Content((N,), "b", lambda i: NOT(as_f(p[tuple(i)]).n))))

    def common(self, c, cur=None):
        for q in WLABS:
            yield q, lambda q=q: self.facts(c, c["qu"], c["qt"], c["qh"], c["good"], c["dry"], cur and cur())[q]
        yield "room", lambda: Z(c["qt"]) + 1 + count(c.ex, c["good"]) + count(c.ex, c["dry"]) <= Z(c.old["S"].shape[0])
        yield "added", lambda: Z(c["newly_wet"]) == self.wetcount(c, c["p"]) - self.wetcount(c, c.old["p"])

    def inv0(self, c):
        yield from self.common(c)

    def inv1(self, c):
        yield from self.common(c, lambda: (c["m"], c["#k"]))
        yield "here", lambda: AND(Z(c["qh"]) >= 0, Z(c["m"]) == Z(c["qu"][Z(c["qh"])]))

    def __init__(self):
        self.loops = [LoopSpec(self.inv0), LoopSpec(self.inv1)]

    def ensures(self, c):
        o = c.old
        r, new = c.res
        n = Z(r.shape[0])
        f = self.facts(c, r, n - 1, n - 1, None, None)
        k, j, e, x = z3.Ints("k!b j!b e!b x!b")
        out = [(q, f[q]) for q in ("bounds", "members", "distinct", "flags", "frame", "first", "earlier")]
        nb = Z(o["indices"][e])
        out.append(("complete", forall([k, e], IMP(AND(inr(0, k, n), seg(o["indptr"], Z(r[k]), e), NOT(as_f(c["p"][nb]).n)),
                                                   z3.Exists([j], z3.And(0 <= j, j < n, Z(r[j]) == nb))))))
        out.append(("added", Z(new) == self.wetcount(c, c["p"]) - self.wetcount(c, o["p"])))
        return out + [(q + "-kept", kept(c, q)) for q in ("indptr", "indices", "S", "T", "P", "p_ml")]


def seg_fn(ex, term, okf, tag):
    """running sum and count of term(j) over the j in 0..m-1 with okf(j)"""
    tab = ex.__dict__.setdefault("segs", {})
    j, m = z3.Int("@0"), z3.Int("m!sg")
    t, ok = term(j), Z(okf(j))
    key = (tag, t.get_id(), ok.get_id())
    if key not in tab:
        S = z3.Function(ex.unm("SEG"), z3.IntSort(), z3.RealSort())
        C = z3.Function(ex.unm("SEGN"), z3.IntSort(), z3.IntSort())
        tm, om = term(m), Z(okf(m))
        ex.axiom(z3.And(S(0) == 0, C(0) == 0), [S(0), C(0)])
        ex.axiom(z3.ForAll([m], z3.Implies(m >= 0, z3.And(S(m + 1) == S(m) + z3.If(om, tm, 0), C(m + 1) == C(m) + z3.If(om, 1, 0))), patterns=[S(m + 1)]), [S(0)])
        ex.axiom(z3.ForAll([m], z3.Implies(m >= 0, z3.And(S(m + 1) == S(m) + z3.If(om, tm, 0), C(m + 1) == C(m) + z3.If(om, 1, 0))), patterns=[C(m + 1)]), [C(0)])
        tab[key] = (S, C, t, ok)
    return tab[key][:2]


RCH, WET = z3.Function("R", z3.IntSort(), z3.BoolSort()), z3.Function("WET", z3.IntSort(), z3.BoolSort())
PLABS = ("reach", "bounds", "front", "front-distinct", "back", "flags", "found", "found-dry", "first", "earlier", "near", "closed", "room")


@contract
class Perim(_Wet):
    path, func = BFS, "bfs_conncomp1_wet_perim"
    params = ["s", "t", "p", "indptr", "indices", "root", "S", "T", "P", "tol_p", "eos", "ppc_fn", "p_ml", "n_rep"]

    def setup(self, ex, st):
        d = self.ocean(ex, st)
        d["n_rep"] = z3.Int("n_rep")
        return d

    def requires(self, c):
        # R: any set of casts with the root, closed under neighbours in WET, any set of
        # casts: if all casts of the surface are in WET they are in R, that is, the
        # surface is connected to the root through itself
        n, e = z3.Ints("n!r e!r")
        nb = Z(c["indices"][e])
        return _Wet.requires(self, c) + [
            ("from-root", RCH(Z(c["root"]))),
            ("closed-set", forall([n, e], IMP(AND(inr(0, n, c["S"].shape[0]), seg(c["indptr"], n, e)), AND(IMP(AND(RCH(n), WET(nb)), RCH(nb)), IMP(AND(RCH(nb), WET(n)), RCH(n))))))]

    def good0(self, c, n):
        return NOT(as_f(c.old["p"][n]).n)

    def search(self, c, cur=None):
        """finding the component: qu[0..qt] are its casts so far, qu[qT+1..] the dry
        casts next to it"""
        o = c.old
        N = Z(o["S"].shape[0])
        ip, ix = o["indptr"], o["indices"]
        qu, good, adj = c["qu"], c["good"], c["wet_adj"]
        qt, qh, qT = Z(c["qt"]), Z(c["qh"]), Z(c["qT"])
        k, j, n, e = z3.Ints("k!b j!b n!b e!b")
        q = lambda i: Z(qu[i])
        g, a, g0 = lambda n: Z(good[n]), lambda n: Z(adj[n]), lambda n: self.good0(c, n)
        x, y, nb = q(k), q(j), Z(ix[e])
        done = inr(0, k, qh + 1) if cur is None else inr(0, k, qh)
        seen = AND(NOT(g(nb)), a(nb))
        closed = forall([k, e], IMP(AND(done, seg(ip, x, e)), seen))
        if cur is not None:
            m, kk = cur
            closed = AND(closed, forall(e, IMP(inr(ip[m], e, Z(ip[m]) + Z(kk)), seen)))
        back = AND(qT < k, k < N)
        found = AND(0 <= k, k <= qt)
        return {
            "reach": IMP(forall(k, IMP(found, WET(x))), forall(k, IMP(found, RCH(x)))),
            "bounds": AND(-1 <= qh, qh <= qt, qT <= N - 1, qt <= qT),
            "front": forall(k, IMP(AND(0 <= k, k <= qt), AND(inr(0, x, N), g0(x), NOT(g(x))))),
            "front-distinct": forall([k, j], IMP(AND(0 <= k, k < j, j <= qt), x != y)),
            "back": AND(forall(k, IMP(back, AND(inr(0, x, N), NOT(g0(x)), a(x)))), forall([k, j], IMP(AND(back, k < j, j < N), x != y))),
            "flags": forall(n, IMP(inr(0, n, N), AND(IMP(g(n), g0(n)), IMP(g0(n), a(n))))),
            "found": forall(n, IMP(AND(inr(0, n, N), g0(n), NOT(g(n))), z3.Exists([k], z3.And(0 <= k, k <= qt, x == n)))),
            "found-dry": forall(n, IMP(AND(inr(0, n, N), NOT(g0(n)), a(n)), z3.Exists([k], z3.And(Z(back), x == n)))),
            "first": AND(IMP(qt >= 0, q(0) == Z(o["root"])), IFF(qt >= 0, g0(o["root"]))),
            "earlier": forall(k, IMP(AND(1 <= k, k <= qt), z3.Exists([j, e], Z(AND(0 <= j, j < k, seg(ip, y, e), nb == x))))),
            "near": forall(k, IMP(back, z3.Exists([j, e], Z(AND(0 <= j, j <= qt, seg(ip, y, e), nb == x))))),
            "closed": closed,
            "room": qt + 1 + (N - 1 - qT) + count(c.ex, good) + self.uncount(c, adj) <= N,
        }

    def uncount(self, c, a):
        return count(c.ex, ArrV(Content(a.shape, "b", lambda i: NOT(Z(a[tuple(i)])))))

    def wets(self, c, p):
        return count(c.ex, ArrV(Content(p.shape, "b", lambda i: NOT(as_f(p[tuple(i)]).n))))

    def inv0(self, c):
        for q in PLABS:
            yield q, lambda q=q: self.search(c)[q]

    def inv1(self, c):
        for q in PLABS:
            yield q, lambda q=q: self.search(c, (c["m"], c["#k"]))[q]
        yield "here", lambda: AND(Z(c["qh"]) >= 0, Z(c["m"]) == Z(c["qu"][Z(c["qh"])]))

    def inv2(self, c):
        k, n = z3.Ints("k!b n!b")
        N = Z(c.old["S"].shape[0])
        q = lambda i: Z(c["qu"][i])
        yield "sound", lambda: forall(n, IMP(AND(inr(0, n, N), Z(c["good"][n])), z3.Exists([k], z3.And(0 <= k, k < Z(c["#next"]), q(k) == n))))
        yield "complete", lambda: forall(k, IMP(AND(0 <= k, k < Z(c["#next"])), Z(c["good"][q(k)])))

    # -- wetting
    def surface(self, c, top):
        """good marks the component, kept as it was; wet casts beyond it were dry and
        are next to a wet cast; qu[qT+1..top] are dry casts still to be tried"""
        o = c.old
        N = Z(o["S"].shape[0])
        ip, ix = o["indptr"], o["indices"]
        qu, good, adj = c["qu"], c["good"], c["wet_adj"]
        s, t, p = c["s"], c["t"], c["p"]
        qt, qT = Z(c["qt"]), Z(c["qT"])
        k, j, n, e = z3.Ints("k!b j!b n!b e!b")
        q = lambda i: Z(qu[i])
        g, a, g0 = lambda n: Z(good[n]), lambda n: Z(adj[n]), lambda n: self.good0(c, n)
        wet = lambda n: NOT(as_f(p[n]).n)
        x, y, nb = q(k), q(j), Z(ix[e])
        back = AND(qT < k, k < N)
        allc = inr(0, n, N)
        return {
            "reach": IMP(forall(n, IMP(AND(allc, wet(n)), WET(n))), forall(n, IMP(AND(allc, wet(n)), RCH(n)))),
            "bounds": AND(qt <= qT, qT <= N - 1, Z(top) <= N - 1, qT <= Z(c.pre["qT"])),
            "front": forall(k, IMP(AND(0 <= k, k <= qt), q(k) == Z(c.pre["qu"][k]))),
            "back": AND(forall(k, IMP(back, AND(inr(0, x, N), NOT(g0(x)), a(x)))), forall([k, j], IMP(AND(back, k < j, j < N), x != y))),
            "untried": forall(k, IMP(AND(qT < k, k <= Z(top)), NOT(wet(x)))),
            "flags": forall(n, IMP(inr(0, n, N), AND(IMP(OR(g0(n), wet(n)), a(n)), IMP(g(n), AND(g0(n), wet(n))), IMP(AND(g0(n), NOT(g(n))), NOT(wet(n)))))),
            "frame": forall(n, IMP(AND(inr(0, n, N), OR(g0(n), NOT(wet(n)))), AND(feq(s[n], o["s"][n]), feq(t[n], o["t"][n]), IMP(g(n), feq(p[n], o["p"][n]))))),
            "next-to": forall(n, IMP(AND(inr(0, n, N), wet(n), NOT(g(n))), z3.Exists([e], Z(AND(seg(ip, n, e), wet(nb)))))),
            "room": qt + 1 + (N - 1 - qT) + self.uncount(c, adj) <= N,
            "added": Z(c["newly_wet"]) == self.wets(c, p) - count(c.ex, good),
        }

    SLABS = ("reach", "bounds", "front", "back", "untried", "flags", "frame", "next-to", "room", "added")

    def inv3(self, c):
        for q in self.SLABS:
            yield q, lambda q=q: self.surface(c, c["qH"])[q]

    def inv4(self, c):
        for q in self.SLABS:
            yield q, lambda q=q: self.surface(c, c["#next"])[q]

    def inv6(self, c):
        for q in self.SLABS:
            yield q, lambda q=q: self.surface(c, Z(c["i"]) - 1)[q]

    def links(self, c, m):
        """the neutral links from the wet neighbours of cast m into it, in this state"""
        o = c.old
        cast = Cast(c, o["S"], o["T"], o["P"], m, None, (), o["ppc_fn"], None)
        fn = c.ex.repo_fn(TRJ, "_ntp_bottle_to_cast_ppc")
        s, t, p = c["s"], c["t"], c["p"]
        ml = as_f(o["p_ml"][m])

        def link(j):
            n = o["indices"][Z(o["indptr"][m]) + j]
            return as_f(p[n]), as_f(c.app(fn, o["tol_p"], s[n], t[n], p[n], cast.Pn, cast.Sc, cast.Tc, o["eos"]))

        def ok(j):
            pn, l = link(j)
            return AND(NOT(pn.n), NOT(l.n), NOT(ml.n), l.v > ml.v)

        S, C = seg_fn(c.ex, lambda j: link(j)[1].v, ok, "perim")
        return cast, S, C, Z(o["indptr"][Z(m) + 1]) - Z(o["indptr"][m])

    def inv5(self, c):
        def f():
            _, S, C, _ = self.links(c, c["m"])
            k = Z(c["#k"])
            p0 = as_f(c["p0"])
            e = z3.Int("e!b")
            lo = Z(c.old["indptr"][c["m"]])
            wet = NOT(as_f(c["p"][Z(c.old["indices"][e])]).n)
            return {"sum": AND(NOT(p0.n), p0.v == S(k)), "count": AND(Z(c["denom"]) == C(k), C(k) >= 0),
                    "some": IMP(Z(c["denom"]) > 0, z3.Exists([e], Z(AND(lo <= e, e < lo + k, wet))))}
        for q in ("sum", "count", "some"):
            yield q, lambda q=q: f()[q]

    def step4(self, c0, c1):
        m = Z(c0["qu"][c0["i"]])
        cast, S, C, L_ = self.links(c0, m)
        n = z3.Int("n!b")
        N = Z(c0.old["S"].shape[0])
        st0, st1 = [[c[q] for q in "stp"] for c in (c0, c1)]
        same = lambda n: AND(*[feq(a[n], b[n]) for a, b in zip(st1, st0)])
        can = AND(cast.wide, C(L_) != 0)
        p = as_f(st1[2][m])
        si, ti = cast.st_at(p)
        new = Z(c1["newly_wet"]) - Z(c0["newly_wet"])
        yield "others-kept", forall(n, IMP(AND(inr(0, n, N), n != m), same(n)))
        yield "no-link", IMP(NOT(can), AND(same(m), new == 0))
        yield "mean-of-links", IMP(can, AND(NOT(p.n), p.v == S(L_) / z3.ToReal(C(L_)), new == 1))
        yield "salt-temp-there", IMP(can, AND(feq(st1[0][m], si), feq(st1[1][m], ti)))

    def __init__(self):
        self.loops = [LoopSpec(self.inv0), LoopSpec(self.inv1), LoopSpec(self.inv2), LoopSpec(self.inv3),
                      LoopSpec(self.inv4, step=self.step4), LoopSpec(self.inv5), LoopSpec(self.inv6)]

    def ensures(self, c):
        o = c.old
        N = Z(o["S"].shape[0])
        ip, ix = o["indptr"], o["indices"]
        s, t, p = c["s"], c["t"], c["p"]
        k, j, n, e = z3.Ints("k!b j!b n!b e!b")
        g0 = lambda n: self.good0(c, n)
        wet = lambda n: NOT(as_f(p[n]).n)
        nb = Z(ix[e])
        comp = lambda n: AND(g0(n), wet(n))
        out = [
            ("kept", forall(n, IMP(AND(inr(0, n, N), comp(n)), AND(*[feq(v[n], o[w][n]) for v, w in ((s, "s"), (t, "t"), (p, "p"))])))),
            ("root", IFF(comp(o["root"]), g0(o["root"]))),
            ("reach", IMP(forall(n, IMP(AND(inr(0, n, N), wet(n)), WET(n))), forall(n, IMP(AND(inr(0, n, N), wet(n)), RCH(n))))),
            ("closed", forall([n, e], IMP(AND(inr(0, n, N), comp(n), seg(ip, n, e), g0(nb)), comp(nb)))),
            ("next-to", forall(n, IMP(AND(inr(0, n, N), wet(n), NOT(g0(n))), z3.Exists([e], Z(AND(seg(ip, n, e), wet(nb))))))),
        ]
        if c.locals is None:
            out.append(("added", Z(c.res) == self.wets(c, p) - count(c.ex, ArrV(Content((N,), "b", lambda i: comp(i[0]))))))
        else:
            # the same through the array good, which marks exactly the component
            good = c.locals["good"]
            out += [("marked", forall(n, IMP(inr(0, n, N), IFF(Z(good[n]), comp(n))))),
                    ("added", Z(c.res) == self.wets(c, p) - count(c.ex, good))]
        if c.locals is not None:
            l = c.locals
            qu, qt = l["qu"], Z(l["qt"])
            q = lambda i: Z(qu[i])
            out += [
                ("connected", forall(n, IMP(AND(inr(0, n, N), comp(n)), z3.Exists([k], z3.And(0 <= k, k <= qt, q(k) == n))))),
                ("earlier", forall(k, IMP(AND(1 <= k, k <= qt), z3.Exists([j, e], Z(AND(0 <= j, j < k, seg(ip, q(j), e), nb == q(k))))))),
                ("starts", IMP(qt >= 0, q(0) == Z(o["root"]))),
            ]
        return out + [(q + "-kept", kept(c, q)) for q in ("indptr", "indices", "S", "T", "P", "p_ml")]
