"""Contracts of neutralocean/surface/isopycnal.py: the choice of reference,
isovalue and pinning, and the surface that results."""
from .base import *  # noqa
from .vert import *  # noqa
from .vert import kernel, want_cast, solved, snap, vrange, mono_rows, t_ok, Cast, eos_arg
from .ppi import PPI, LIB

ISO = "neutralocean/surface/isopycnal.py"


def mk_surf(kind, cfg, pinform, interp, form=Form(), layout="alias"):
    class Surf(Contract):
        path, func = ISO, kind + "_surf"
        params = ["S", "T", "P", "kwargs"]
        modular = False
        pinned = "isoval" not in cfg
        options = {"require": layout}

        def setup(self, ex, st):
            N, M = z3.Ints("N M")
            st.assume(z3.And(N >= 0, M >= (1 if form.lab else 0)))
            kw = PyDict()
            kw["eos"], kw["diags"], kw["interp"] = eos_arg(), False, interp
            kw["TOL_P_SOLVER"] = fl("tol_p")
            if "ref" in cfg:
                kw["ref"] = fl("ref") if kind == "potential" else (fl("ref0"), fl("ref1"))
            if "isoval" in cfg:
                kw["isoval"] = fl("isoval")
            if "pin" in cfg:
                i = z3.Int("i")
                if pinform == "dict":
                    kw["pin_cast"] = PyDict(x=fl("xpin"))
                else:
                    kw["pin_cast"] = {"int": i, "tuple": (i,), "list": [i]}[pinform]
                kw["pin_p"] = fl("pin_p")
            if form.vdim != -1 or form.named:
                kw["vert_dim"] = form.vert_dim()
            self.kw = kw
            d = form.args(ex, st, N, M)
            d["kwargs"] = kw
            return d

        def pin(self, c):
            n = z3.Int("i")
            o = c.old
            k = Cast(c, *[form.at(o, q) for q in "STP"], n, None, (), kernel(c.ex, interp), None)
            return n, k, self.kw["pin_p"]

        def requires(self, c):
            S, T, P = (form.at(c, q) for q in "STP")
            out = [("pressure-increases", mono_rows(P, S)), ("t-valid", t_ok(S, T, P)), ("tol", self.kw["TOL_P_SOLVER"].v >= 0)]
            if "pin" in cfg:
                n = z3.Int("i")
                k, K = vrange(c, S[n], P[n])
                p = self.kw["pin_p"].v
                if pinform == "dict":
                    # the coordinates increase, and cast n is the one at the pinning coordinate
                    a, b = z3.Ints("a!x b!x")
                    xs = form.xs
                    out += [("coordinates-increase", forall([a, b], IMP(AND(0 <= a, a < b, b < S.shape[0]), as_f(xs[a]).v < as_f(xs[b]).v))),
                            ("at", as_f(xs[n]).v == self.kw["pin_cast"]["x"].v)]
                out += [("pin-cast", inr(0, n, S.shape[0])),
                        ("pin-in-range", AND(K - k >= 2, as_f(P[n, k]).v <= p, p <= as_f(P[n, K - 1]).v))]
            return out

        def ensures(self, c):
            o = c.old
            (s, t, p), labels = form.outputs(c, c.res[:3])
            if not all(x is True for l, x in labels):
                return labels
            d = c.res[3]
            eos = self.kw["eos"].scal
            n = z3.Int("n!e")
            ref, iso = self.kw.get("ref"), self.kw.get("isoval")
            pn = None
            if self.pinned:
                pn, k, pp = self.pin(c)
                s0, t0 = (as_f(q) for q in k.st_at(pp))
                if kind == "potential":
                    ref = pp if ref is None else ref
                    iso = eos(s0, t0, ref)
                else:
                    ref = (s0, t0) if ref is None else ref
                    iso = fsub(eos(s0, t0, pp), eos(ref[0], ref[1], pp))
            out = []
            for q, want in (("ref", ref), ("isoval", iso)):
                got = d[q] if q in d else None
                if isinstance(want, tuple):
                    out.append((q, AND(*[feq(a, b) for a, b in zip(want, got)]) if isinstance(got, tuple) and len(got) == 2 else False))
                else:
                    out.append((q, feq(want, got) if got is not None else False))
            cast = want_cast(c, *[form.at(o, q) for q in "STP"], n, kind, ref, iso, eos, kernel(c.ex, interp))
            N = form.size(o)[0]
            out.append(("shape", AND(*[AND(len(x.shape) == 1, Z(x.shape[0]) == Z(N)) for x in (s, t, p)])))
            for lab, f in solved(cast, s, t, p, self.kw["TOL_P_SOLVER"].v, n):
                out.append((lab, forall(n, IMP(AND(inr(0, n, N), True if pn is None else n != pn), f))))
            if pn is not None:
                out.append(("pinned", AND(feq(p[pn], pp), feq(s[pn], s0), feq(t[pn], t0), NOT(s0.n), NOT(t0.n))))
            return out + labels + [(q + "-kept", form.kept(c, q)) for q in "STP"]

    Surf.name = f"{ISO}:{kind}_surf[{cfg},{pinform},{interp}{form}{',copied' if layout == 'copy' else ''}]"
    contract(Surf)


from .arrays import kept  # noqa

for _k in ("potential", "anomaly"):
    for _c, _p, _i in (("ref+isoval", "none", "linear"), ("ref+isoval", "none", "pchip"), ("ref+isoval+pin", "int", "linear"),
                       ("ref+pin", "int", "linear"), ("pin", "int", "linear"), ("pin", "tuple", "pchip"), ("pin", "list", "linear")):
        mk_surf(_k, _c, _p, _i)


for _k in ("potential", "anomaly"):
    for _f, _l in ((Form(0), "alias"), (Form(0), "copy"), (Form(-2, P1=True), "alias"), (Form(-1, P1=True), "copy"), (Form(-1, lab="STP"), "alias"),
                   (Form(0, lab="STP", named=True), "alias"), (Form(1, P1=True, lab="STP", named=True), "copy"), (Form(0, lab="ST"), "alias"), (Form(0, P1=True, lab="ST", named=True), "alias")):
        mk_surf(_k, "ref+isoval", "none", "linear", _f, _l)
    for _f, _p in ((Form(0), "int"), (Form(-1, P1=True), "tuple"), (Form(0, lab="STP", named=True), "dict"), (Form(1, lab="ST"), "dict"), (Form(0, P1=True, lab="STP", named=True), "int")):
        mk_surf(_k, "pin", _p, "linear", _f)


# ------------------------------------------------------------------ rejected calls
def mk_reject(kind, label, kw, exc):
    class Rej(Contract):
        path, func = ISO, kind + "_surf"
        params = ["S", "T", "P", "kwargs"]
        modular = False
        must_raise = [exc]

        def setup(self, ex, st):
            N, M = z3.Ints("N M")
            st.assume(z3.And(N >= 1, M >= 1))
            k = PyDict()
            k["eos"], k["diags"], k["interp"] = eos_arg(), False, "linear"
            k.update({q: (v() if callable(v) else v) for q, v in kw.items()})
            d = {q: arr(ex, st, q, (N, M)) for q in "STP"}
            d["kwargs"] = k
            return d

    Rej.name = f"{ISO}:{kind}_surf[rejects,{label}]"
    contract(Rej)


_x = lambda nm: (lambda: fl(nm))
for _k in ("potential", "anomaly"):
    _r = _x("ref") if _k == "potential" else (lambda: (fl("ref0"), fl("ref1")))
    mk_reject(_k, "nothing", {}, "TypeError")
    mk_reject(_k, "only-pin_p", {"pin_p": _x("pin_p")}, "TypeError")
    mk_reject(_k, "only-pin_cast", {"pin_cast": 0}, "TypeError")
    mk_reject(_k, "isoval-pin_p", {"isoval": _x("isoval"), "pin_p": _x("pin_p")}, "TypeError")
    mk_reject(_k, "only-ref", {"ref": _r}, "TypeError")
    mk_reject(_k, "ref-pin_p", {"ref": _r, "pin_p": _x("pin_p")}, "TypeError")
    mk_reject(_k, "ref-pin_cast", {"ref": _r, "pin_cast": 0}, "TypeError")
    mk_reject(_k, "int-pin_p", {"ref": _r, "pin_cast": 0, "pin_p": 3}, "TypeError")
    mk_reject(_k, "unknown-interp", {"ref": _r, "isoval": _x("isoval"), "interp": "cubic"}, "ValueError")
    mk_reject(_k, "diags-without-grid", {"ref": _r, "isoval": _x("isoval"), "diags": True}, "ValueError")
mk_reject("potential", "pair-ref", {"ref": lambda: (fl("ref0"), fl("ref1")), "isoval": _x("isoval")}, "TypeError")
mk_reject("potential", "int-ref", {"ref": 2, "isoval": _x("isoval")}, "TypeError")
mk_reject("anomaly", "scalar-ref", {"ref": _x("ref"), "isoval": _x("isoval")}, "TypeError")
mk_reject("anomaly", "triple-ref", {"ref": lambda: (fl("ref0"), fl("ref1"), fl("ref2")), "isoval": _x("isoval")}, "TypeError")
