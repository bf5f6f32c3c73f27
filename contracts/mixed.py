"""Contracts of neutralocean/mixed_layer.py, and of piecewise interpolation for its
callers."""
from .base import *  # noqa
from vpy import lift as L
from .ppi import increasing, PPI, vr_spec
from .vert import fn_name, snap, _R, _B
from .arrays import kept
from .inputs import labelled, dims_of

ML = "neutralocean/mixed_layer.py"


class InterpCall(Contract):
    """ppinterp_1 for its callers: a function of the interpolant, the site and the
    data, NaN outside the valid increasing data (proved: units ppinterp_1[...])"""

    path, func = PPI, "ppinterp_1"
    params = ["f", "x", "X", "Y", "d"]
    data = ("Y",)

    def requires(self, c):
        n = Z(c["X"].shape[0])
        return [("same-length", AND(*[Z(c[q].shape[0]) == n for q in self.data]))]

    def result(self, ex, st, c):
        X, x = c["X"], as_f(c["x"])
        n = Z(X.shape[0])
        d = c["d"]
        res = []
        for q in self.data:
            k1, p1 = L.lift(X)
            k2, p2 = L.lift(c[q])
            v, nan = L.uf("INTERP", "|".join([fn_name(c.raw("f")), k1, k2]), p1 + p2, [n, x.v, Z(x.n), Z(d)], [("", _R), (".nan", _B)])
            res.append(F(nan, v))
            self.same(ex, (fn_name(c.raw("f")), n, x, Z(d), X, c[q], v, nan))
        return tuple(res) if len(res) > 1 else res[0]

    def same(self, ex, new):
        """the same data give the same result"""
        tab = ex.__dict__.setdefault("interps", [])
        f, n, x, d, X, Y, v, nan = new
        if any(v.eq(o[6]) for o in tab):
            return
        i = z3.Int("i!in")
        for g, m, y, e, X2, Y2, w, nan2 in tab:
            if f != g:
                continue
            eq = AND(n == m, feq(x, y), d == e, forall(i, IMP(inr(0, i, n), AND(feq(X[i], X2[i]), feq(Y[i], Y2[i])))))
            ex.axiom(z3.Implies(Z(eq), z3.And(v == w, Z(nan) == Z(nan2))), [v, w])
        tab.append(new)

    def ensures(self, c):
        X, x = c.old["X"], as_f(c.old["x"])
        n = Z(X.shape[0])
        k, K = z3.Ints("k!v K!v")
        a, b = z3.Ints("a!s b!s")
        inc = forall([a, b], IMP(AND(0 <= a, a < b, b < n, NOT(as_f(X[a]).n), NOT(as_f(X[b]).n)), as_f(X[a]).v < as_f(X[b]).v))
        res = c.res if isinstance(c.res, tuple) else (c.res,)
        out = [("nan", IMP(x.n, r.n)) for r in map(as_f, res)]
        for q, r in zip(self.data, res):
            hyp = AND(inc, *[f for _, f in vr_spec(X, c.old[self.data[0]], k, K, n)])
            inside = AND(NOT(x.n), k < K - 1, as_f(X[k]).v <= x.v, x.v <= as_f(X[K - 1]).v)
            out.append((f"{q}-nan-outside", forall([k, K], IMP(AND(hyp, NOT(inside)), as_f(r).n))))
        return out


class InterpTwoCall(InterpCall):
    func = "ppinterp_1_two"
    params = ["f", "x", "X", "Y", "Z", "d"]
    data = ("Y", "Z")


REG[(PPI, "ppinterp_1")] = InterpCall()
REG[(PPI, "ppinterp_1_two")] = InterpTwoCall()


def kept_lab(c, q):
    new, old = c[q], c.old[q]
    if not isinstance(old, NPM.XView):
        return kept(c, q)
    if not isinstance(new, NPM.XView) or not new.same_labels(old):
        return False
    vs = [z3.Int(f"q{i}!k") for i in range(len(old.data.shape))]
    rng = AND(*[inr(0, v, s) for v, s in zip(vs, old.data.shape)])
    return forall(vs, IMP(rng, feq(new.data[tuple(vs)], old.data[tuple(vs)])))


def mk_ml(rank, vdim, interp, P1=False, lab="", layout="alias"):
    class Mixed(Contract):
        path, func = ML, "mixed_layer"
        params = ["S", "T", "P", "eos", "grav", "rho_c", "pot_dens_diff", "ref_p", "bottle_index", "interp", "vert_dim"]
        modular = False
        options = {"require": layout}

        def setup(self, ex, st):
            sh = [z3.Int(f"n{i}") for i in range(rank)]
            for x in sh:
                st.assume(x >= 1)
            self.v = vdim % rank
            dims = dims_of(rank, self.v)
            mk = lambda q, ds, s: labelled(ex, st, q, ds, s) if q in lab else arr(ex, st, q, s)
            d = {q: mk(q, dims, sh) for q in "ST"}
            d["P"] = mk("P", ("z",), (sh[self.v],)) if P1 else mk("P", dims, sh)
            b = z3.Int("bottle")
            st.assume(z3.And(0 <= b, b < sh[self.v]))
            d.update(eos=ffun("eos", 3, nan="total"), grav=None, rho_c=None, pot_dens_diff=fl("diff"), ref_p=fl("ref_p"), bottle_index=b,
                     interp=interp, vert_dim="z" if lab else vdim)
            self.sh = sh
            return d

        def ensures(self, c):
            o = {q: x.data if isinstance(x, NPM.XView) else x for q, x in dict(c.old).items()}
            eos = o["eos"].scal
            fn = {"linear": "neutralocean/ppinterp/linear.py", "pchip": "neutralocean/ppinterp/pchip.py"}[interp]
            f = c.ex.repo_fn(fn, f"{interp}_interp_1")
            v, sh = self.v, self.sh
            # an arbitrary cast (free constants: the clause holds for all)
            idx = [z3.Int(f"cast{k}") for k in range(rank - 1)]
            full = lambda j: tuple(idx[:v]) + (Z(j),) + tuple(idx[v:])
            b, ref = Z(o["bottle_index"]), as_f(o["ref_p"])
            light = as_f(eos(as_f(34.5), as_f(3), as_f(1000))).v > 1
            one = z3.RealVal(1)

            def diff(j):
                e = [eos(as_f(o["S"][full(k)]), as_f(o["T"][full(k)]), ref) for k in (j, b)]
                inv = [NPM.fdiv_arr(F(False, one), x) for x in e]
                n = z3.If(light, Z(OR(*[x.n for x in e])), Z(OR(*[x.n for x in inv])))
                return F(n, z3.If(light, e[0].v - e[1].v, inv[0].v - inv[1].v))

            M = sh[v]
            D = ArrV(Content((M,), "f", lambda j: diff(j[0])))
            P = ArrV(Content((M,), "f", lambda j: o["P"][j[0]] if P1 else o["P"][full(j[0])]))
            want = as_f(c.app(f, o["pot_dens_diff"], snap(c, D), snap(c, P), 0))
            r = c.res
            got = as_f(r[tuple(idx)]) if rank > 1 else as_f(r)
            dom = AND(*[inr(0, i, n) for i, n in zip(idx, sh[:v] + sh[v + 1:])])
            out = [("shape", AND(*[Z(a) == Z(b) for a, b in zip(r.shape, sh[:v] + sh[v + 1:])], len(r.shape) == rank - 1) if rank > 1 else True)]
            out.append(("interpolated", IMP(dom, feq(got, want))))
            return out + [(q + "-kept", kept_lab(c, q)) for q in "STP"]

    Mixed.name = f"{ML}:mixed_layer[rank={rank},vert_dim={vdim},{interp}{',one P' if P1 else ''}{',labelled ' + lab if lab else ''}{',copied' if layout == 'copy' else ''}]"
    contract(Mixed)


for _i in ("linear", "pchip"):
    mk_ml(1, -1, _i)
    mk_ml(2, -1, _i)
    mk_ml(2, 0, _i)
    mk_ml(2, -1, _i, True)
mk_ml(2, 0, "linear", True)
mk_ml(3, -1, "linear")
mk_ml(3, 1, "linear")
mk_ml(2, 0, "linear", lab="STP")
mk_ml(3, 1, "linear", lab="STP", layout="copy")
mk_ml(2, -1, "pchip", True, lab="ST")
mk_ml(3, 0, "linear", True, lab="STP")
mk_ml(2, 0, "linear", layout="copy")
