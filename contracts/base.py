"""Helpers shared by the contracts."""
import z3
from vpy.values import *  # noqa
from vpy.engine import Contract, Lemma, LoopSpec, OpaqueFn, Opaque, Ctx, Unsupported, PyDict, Builtin, RepoFunc
from vpy import numpy_model as NPM

REG = {}  # (path, func) -> modular contract
UNITS = []  # all contracts


def contract(cls):
    c = cls()
    UNITS.append(c)
    if c.modular:
        REG[(c.path, c.func)] = c
    return cls


def ffun(name, arity=1, nan="range"):
    """An uninterpreted float function of `arity` floats; extra arguments are the
    fixed parameters.  NaN in -> NaN out; nan='total': otherwise never NaN;
    nan='range': NaN-ness is an uninterpreted predicate."""
    fv = z3.Function(name, *([z3.RealSort()] * (arity + 1)))
    fn = z3.Function(name + ".nan", *([z3.RealSort()] * arity), z3.BoolSort())

    def scal(*xs):
        xs = [as_f(x) for x in xs]
        vs = [x.v for x in xs]
        n = OR(*[x.n for x in xs])
        if nan == "range":
            n = OR(n, fn(*vs))
        return F(n, fv(*vs))

    def spec(ex, st, args, kw):
        xs = args[:arity]
        if len(xs) < arity:
            raise Unsupported(f"{name}: arity")
        for extra in args[arity:]:
            if not isinstance(extra, Opaque) or extra.tag != "ARGS":
                raise Unsupported(f"{name}: unexpected extra argument")
        if any(isinstance(x, Arr) for x in xs):
            return NPM.elementwise(ex, st, scal, list(xs))
        return scal(*xs)

    o = OpaqueFn(name, spec)
    o.fv, o.fn, o.scal = fv, fn, scal
    return o


def fl(name, nan=False):
    return F(z3.Bool(name + ".nan") if nan else False, z3.Real(name))


def sgn_opp(x, y):
    """x*y <= 0 as a sign condition"""
    return z3.And(z3.Not(z3.And(x > 0, y > 0)), z3.Not(z3.And(x < 0, y < 0)))


def arr(ex, st, name, shape, kind="f", nan=True):
    return ex.fresh_arr(st, name, shape, kind, nan, name=name)


def qi(*names):
    return [z3.Int(n + "!q") for n in names]


def forall(vs, body, pats=None):
    body = Z(body)
    if isinstance(body, bool):
        return body
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if pats:
        return z3.ForAll(list(vs), body, patterns=pats)
    return z3.ForAll(list(vs), body)


def exists(vs, body):
    return z3.Exists(list(vs) if isinstance(vs, (list, tuple)) else [vs], Z(body))


def inr(lo, x, hi):
    """lo <= x < hi"""
    return z3.And(Z(lo) <= Z(x), Z(x) < Z(hi))


def feq(a, b):
    """float equality with NaN == NaN"""
    a, b = as_f(a), as_f(b)
    return AND(IFF(a.n, b.n), IMP(NOT(a.n), a.v == b.v))


def num_ok(a):
    return NOT(as_f(a).n)


def exists_w(c, v, body, wit):
    """Exists v. body(v).  When the body of the function is being checked, a
    local variable may serve as the witness (a stronger goal); a caller gets the
    existential."""
    if c.locals is not None:
        try:
            return body(wit(c.locals))
        except (KeyError, TypeError, AttributeError, IndexError, Unsupported):
            pass
    return z3.Exists([v], Z(body(v)))


class Form:
    """How a stack of N casts of M bottles is given: the vertical axis, one pressure
    for all casts, labelled (xarray) salinity and temperature (and pressure), named
    vertical dimension."""

    def __init__(self, vdim=-1, P1=False, lab="", named=False):
        self.vdim, self.P1, self.lab, self.named = vdim, P1, lab, named
        self.v = vdim % 2

    def __str__(self):
        return "".join([f",vert_dim={self.vdim if not self.named else 'name'}" if self.vdim != -1 or self.named else "", ",one P" if self.P1 else "",
                        f",labelled {self.lab}" if self.lab else ""])

    def args(self, ex, st, N, M):
        sh = (N, M) if self.v else (M, N)
        d = {q: arr(ex, st, q, sh) for q in "ST"}
        d["P"] = arr(ex, st, "P", (M,) if self.P1 else sh)
        self.raw = dict(d)
        if self.lab:
            dims = ("x", "z") if self.v else ("z", "x")
            self.xs = ArrV(fresh_content("xcoord", (N,), "f", name="xcoord"))
            for q in self.lab:
                co = {"x": (("x",), self.xs), "z": (("z",), "depths"), "area": (("x",), "areas")}
                one = q == "P" and self.P1
                d[q] = NPM.XArr(d[q], ("z",) if one else dims, {"z": co["z"]} if one else co, {"units": q + "units"}, {"S": "salt", "T": "theta", "P": "pres"}[q])
        return d

    def vert_dim(self):
        return "z" if self.named else self.vdim

    def at(self, c, q):
        """the data as rows of casts"""
        a = c[q]
        if isinstance(a, NPM.XView):
            a = a.data
        if q == "P" and self.P1:
            n = self.size(c)[0]
            return ArrV(Content((n, a.shape[0]), a.kind, lambda v: a[v[1]]))
        if self.v:
            return a
        return ArrV(Content((a.shape[1], a.shape[0]), a.kind, lambda v: a[v[1], v[0]]))

    def size(self, c):
        S = c["S"]
        sh = S.data.shape if isinstance(S, NPM.XView) else S.shape
        return sh if self.v else sh[::-1]

    def kept(self, c, q):
        new, old = c[q], c.old[q]
        if isinstance(old, NPM.XView):
            if not isinstance(new, NPM.XView) or not new.same_labels(old):
                return False
            new, old = new.data, old.data
        vs = [z3.Int(f"q{i}!k") for i in range(len(old.shape))]
        return forall(vs, IMP(AND(*[inr(0, v, s) for v, s in zip(vs, old.shape)]), feq(new[tuple(vs)], old[tuple(vs)])))

    def outputs(self, c, res):
        """the numbers of the outputs, and what has to hold of their labels"""
        if not self.lab:
            return res, [("plain", not any(isinstance(x, NPM.XView) for x in res))]
        facts = []
        o = c.old
        P = o["P"]
        for q, x in zip("stp", res):
            if not isinstance(x, NPM.XView):
                return res, [("labelled", False)]
            src = o[q.upper()]
            name, attrs = (src.name, src.attrs) if isinstance(src, NPM.XView) else (None, {})
            facts.append((q + "-labels", x.dims == ("x",) and list(x.coords) == ["x", "area"] and x.coords["x"][0] == ("x",) and x.coords["x"][1] is self.xs
                          and x.coords["area"] == (("x",), "areas") and x.name == name and dict(x.attrs) == dict(attrs)))
        return tuple(x.data for x in res), facts
