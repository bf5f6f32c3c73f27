"""The guvectorize'd and the vectorised functions of ppinterp: one cast at a time, with
broadcasting, they are the functions of one cast (whose own contracts are in ppi,
pchip)."""
from .base import *  # noqa
from vpy import lift as L
from .ppi import PPI, LIB, LIN
from .vert import fn_name, snap, _R, _B, _I

PCH = "neutralocean/ppinterp/pchip.py"


class PureCall(Contract):
    """a function of its arguments, nothing more (numba's njit functions have no state)"""

    def __init__(self, path, func, params, outs):
        self.path, self.func, self.params, self.outs = path, func, params, outs

    @property
    def unit(self):
        return f"{self.path}:{self.func}"

    def requires(self, c):
        return []

    def ensures(self, c):
        return []

    def result(self, ex, st, c):
        keys, args = [self.func], []
        for q in self.params:
            v = c[q]
            if isinstance(v, ArrV):
                k, par = L.lift(v)
                keys.append(k)
                args += par + [Z(d) for d in v.shape]
            elif isinstance(c.raw(q), (RepoFunc, OpaqueFn)):
                keys.append(fn_name(c.raw(q)))
            elif isinstance(v, (int, z3.ArithRef)) and not (z3.is_expr(v) and v.sort() == _R):
                args.append(Z(v))
            else:
                v = as_f(v)
                args += [v.v, Z(v.n)]
        res = []
        for k, o in enumerate(self.outs):
            if o == "i":
                res.append(L.uf(f"PURE{k}", "|".join(keys), args, [], [("", _I)])[0])
            elif o == "f":
                v, n = L.uf(f"PURE{k}", "|".join(keys), args, [], [("", _R), (".nan", _B)])
                res.append(F(n, v))
            else:
                def get(idx, k=k):
                    v, n = L.uf(f"PURE{k}", "|".join(keys), args, [Z(i) for i in idx], [("", _R), (".nan", _B)])
                    return F(n, v)
                res.append(ex.new_arr(st, Content(o(c), "f", get)))
        return res[0] if len(res) == 1 else tuple(res)


def one_cast(path, func, params, outs):
    return {(path, func): PureCall(path, func, params, outs)}


def mk(path, func, tag, shapes, ints, callee, outs, core_out=()):
    """shapes: parameter -> (loop dims, core dims) of symbols"""
    cpath, cfunc, cparams = callee
    cal = one_cast(cpath, cfunc, cparams, outs)

    class G(Contract):
        modular = False
        options = {"called": True}
        callees = cal
        guf_int = {func: True} if ints else {}

        def setup(self, ex, st):
            dims = {}

            def dim(s):
                if isinstance(s, int):
                    return s
                if s not in dims:
                    dims[s] = z3.Int(s)
                    st.assume(dims[s] >= 1)
                return dims[s]

            d = {}
            for q, (lo, co) in shapes.items():
                if lo is None:
                    d[q] = co
                elif not lo and not co:
                    d[q] = fl(q, nan=True)
                else:
                    d[q] = arr(ex, st, q, tuple(dim(x) for x in lo + co))
            return d

        def ensures(self, c):
            o = c.old
            loop = max((lo for lo, co in shapes.values() if lo is not None), key=len)
            idx = {s: z3.Int("at_" + s) for s in loop}
            vals = []
            for q, (lo, co) in shapes.items():
                if q not in cparams:
                    continue
                v = o[q]
                if lo is None:
                    vals.append(v)
                elif not lo and not co:
                    vals.append(v)
                elif not co:
                    vals.append(v[tuple(idx[s] for s in lo)])
                else:
                    own = tuple(idx[s] for s in lo)
                    A = ArrV(Content(v.shape[len(lo):], "f", lambda j, v=v, own=own: v[own + tuple(j)]))
                    vals.append(snap(c, A))
            want = c.app(c.ex.repo_fn(cpath, cfunc), *vals)
            res = c.res if isinstance(c.res, tuple) else (c.res,)
            wants = want if isinstance(want, tuple) else (want,)
            out = [("outputs", len(res) == len(wants))]
            dom = [inr(0, idx[s], z3.Int(s)) for s in loop]
            for n, (r, w) in enumerate(zip(res, wants)):
                ci = [z3.Int(f"j{k}") for k in range(len(core_out))]
                if isinstance(w, Arr):
                    w = c.view(w)
                    d2 = [inr(0, i, x) for i, x in zip(ci, w.shape)]
                    w = w[tuple(ci)]
                else:
                    d2 = []
                at = tuple(idx[s] for s in loop) + tuple(ci)
                shp = [z3.Int(s) for s in loop] + [z3.Int(s) if isinstance(s, str) else s for s in core_out]
                if at:
                    out.append((f"shape{n}", AND(len(r.shape) == len(shp), *[Z(a) == Z(b) for a, b in zip(r.shape, shp)])))
                    r = r[at]
                eq = feq(r, w) if outs[min(n, len(outs) - 1)] != "i" else Z(r) == Z(w)
                out.append((f"each-cast{n}", IMP(AND(*(dom + d2)), eq)))
            return out

    G.path, G.func, G.name, G.__module__ = path, func, f"{path}:{func}[{tag}]", __name__
    UNITS.append(G())


for _path, _k, _m in ((LIN, "linear", 2), (PCH, "pchip", 4)):
    for _t, _x, _X in (("per-cast", ("N",), ("N",)), ("one-site", (), ("N",)), ("one-abscissa", ("N",), ())):
        mk(_path, f"{_k}_interp", _t, {"x": (_x, ()), "X": (_X, ("M",)), "Y": (("N",), ("M",)), "d": (None, 0)}, False,
           (_path, f"{_k}_interp_1", ["x", "X", "Y", "d"]), ["f"])
        mk(_path, f"{_k}_interp_two", _t, {"x": (_x, ()), "X": (_X, ("M",)), "Y": (("N",), ("M",)), "Z": (("N",), ("M",)), "d": (None, 0)}, False,
           (_path, f"{_k}_interp_1_two", ["x", "X", "Y", "Z", "d"]), ["f", "f"])
        mk(_path, f"{_k}_coeffs", _t, {"X": (_X, ("M",)), "Y": (("N",), ("M",))}, False,
           (_path, f"{_k}_coeffs_1", ["X", "Y"]), [lambda c, m=_m: (c["Y"].shape[0], m)], ("M", _m))
    mk(_path, f"{_k}_interp", "two-dims", {"x": (("N", "L"), ()), "X": (("N", "L"), ("M",)), "Y": (("N", "L"), ("M",)), "d": (None, 1)}, False,
       (_path, f"{_k}_interp_1", ["x", "X", "Y", "d"]), ["f"])
for _t, _x in (("per-cast", ("N",)), ("one-site", ())):
    mk(PPI, "ppval", _t, {"x": (_x, ()), "X": (("N",), ("M",)), "Yppc": (("N",), ("M", "K")), "d": (None, 0)}, False,
       (PPI, "ppval_1", ["x", "X", "Yppc", "d"]), ["f"])
    mk(PPI, "ppval_two", _t, {"x": (_x, ()), "X": (("N",), ("M",)), "Yppc": (("N",), ("M", "K")), "Zppc": (("N",), ("M", "K")), "d": (None, 0)}, False,
       (PPI, "ppval_1_two", ["x", "X", "Yppc", "Zppc", "d"]), ["f", "f"])
mk(LIB, "valid_range", "stacked", {"X": (("N",), ("M",))}, True, (LIB, "valid_range_1", ["X"]), ["i", "i"])
mk(LIB, "valid_range", "two-dims", {"X": (("N", "L"), ("M",))}, True, (LIB, "valid_range_1", ["X"]), ["i", "i"])


# ------------------------------------------------------------------ one cast
from .ppi import vr_spec, seg_spec, pval_app  # noqa


def mk_interp1(path, kind, two, d):
    func = f"{kind}_interp_1" + ("_two" if two else "")

    class I1(Contract):
        """the piecewise polynomial of the interpolant at x: the coefficients
        _<kind>_coeffs_i of the piece that holds x, NaN outside the valid data"""

        modular = False
        params = ["x", "X", "Y", "Z", "d"] if two else ["x", "X", "Y", "d"]
        callees = {(PPI, "ppinterp_1"): None, (PPI, "ppinterp_1_two"): None}
        if kind == "pchip":
            callees[(path, "_pchip_coeffs_i")] = PureCall(path, "_pchip_coeffs_i", ["X", "Y", "i"], ["f"] * 4)

        def setup(self, ex, st):
            n = z3.Int("n")
            st.assume(n >= 0)
            out = {"x": fl("x", nan=True)}
            for q in ("X", "Y") + (("Z",) if two else ()):
                out[q] = arr(ex, st, q, (n,))
            out["d"] = d
            return out

        def requires(self, c):
            X = c["X"]
            n = Z(X.shape[0])
            a, b = z3.Ints("a!s b!s")
            out = [("increasing", forall([a, b], IMP(AND(0 <= a, a < b, b < n, NOT(as_f(X[a]).n), NOT(as_f(X[b]).n)), as_f(X[a]).v < as_f(X[b]).v)))]
            if two:
                j = z3.Int("j!s")
                out.append(("both-valid", forall(j, IMP(inr(0, j, n), IFF(as_f(c["Y"][j]).n, as_f(c["Z"][j]).n)))))
            return out

        def ensures(self, c):
            o = c.old
            X, Y, x = o["X"], o["Y"], as_f(o["x"])
            n = Z(X.shape[0])
            k, K, i = z3.Ints("k K i")
            hyp = AND(*[f for _, f in vr_spec(X, Y, k, K, n)])
            inside = AND(NOT(x.n), k < K - 1, as_f(X[k]).v <= x.v, x.v <= as_f(X[K - 1]).v)
            res = c.res if isinstance(c.res, tuple) else (c.res,)
            out = []
            for q, r in zip("YZ", res):
                r = as_f(r)
                D = o[q]
                out.append((q + "-nan-outside", IMP(AND(hyp, NOT(inside)), r.n)))
                if kind == "linear":
                    x0, x1, y0, y1 = as_f(X[i]).v, as_f(X[i + 1]).v, as_f(D[i]).v, as_f(D[i + 1]).v
                    m = (y1 - y0) / (x1 - x0)
                    cs = [F(False, m), F(False, y0)]
                else:
                    cs = [as_f(q) for q in c.app(c.ex.repo_fn(path, "_pchip_coeffs_i"), snap(c, X), snap(c, D), i)]
                w = pval_app(F(False, x.v - as_f(X[i]).v), cs, d)
                out.append((q + "-piece", IMP(AND(hyp, inside, seg_spec(X, k, K, i, x.v)), feq(r, w) if kind == "linear" else AND(IMP(NOT(r.n), r.v == w.v), IFF(r.n, w.n)))))
            return out

    I1.path, I1.func, I1.name, I1.__module__ = path, func, f"{path}:{func}[d={d}]", __name__
    UNITS.append(I1())


for _path, _k in ((LIN, "linear"), (PCH, "pchip")):
    for _two in (False, True):
        for _d in (0, 1):
            mk_interp1(_path, _k, _two, _d)
