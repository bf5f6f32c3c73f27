"""ASSUMED behaviour of scipy.sparse matrices and of the two solvers.

A matrix is the list of the pieces of triplets (row, column, value) it was made from;
duplicate entries add up, so that row i of the product with x is the sum, over all
triplets in row i, of value times x[column].  A sum over a concatenation is the sum of
the sums over its pieces; a sum over consecutive rows is one term (lemma:sums)."""
import z3
from . import engine as E
from .values import *  # noqa
from .numpy_model import reg, getter, agg_fn, flatten_tuple_index, Arr, ArrV, Content, is_int  # noqa


def pieces(ex, st, a):
    """1-D array -> [(length, element function)]"""
    ct = st.heap[a.cell]
    if a.imap is None and isinstance(ct.tag, tuple) and ct.tag[0] == "cat":
        return ct.tag[1]
    g = getter(st, a)
    return [(a.shape[0], lambda i: g((i,)))]


def seg_sum(ex, ln, f, idx, i):
    """sum of f(k), k < ln, over the k with idx(k) == i"""
    k = z3.Int("k!seg")
    zi = lambda t: z3.simplify(Z(as_int(t)))
    if isinstance(ln, int) or z3.is_int_value(Z(ln)):
        n = ln if isinstance(ln, int) else ln.as_long()
        if n <= 4:
            tot = z3.RealVal(0)
            for q in range(n):
                tot = tot + z3.If(zi(idx(z3.IntVal(q))) == i, as_f(f(z3.IntVal(q))).v, z3.RealVal(0))
            return tot
    if zi(idx(k)).eq(k):
        return z3.If(z3.And(0 <= i, i < Z(ln)), as_f(f(i)).v, z3.RealVal(0))
    tab = ex.__dict__.setdefault("segs", {})
    fk, ik = as_f(f(k)).v, zi(idx(k))
    key = (z3.simplify(fk).get_id(), ik.get_id(), z3.simplify(Z(ln)).get_id())
    if key not in tab:
        e = ArrV(Content((ln,), "f", lambda v: f(v[0])))
        x = ArrV(Content((ln,), "i", lambda v: idx(v[0])))
        S, _ = agg_fn(ex, e, x, "seg")
        tab[key] = (S, fk, ik, e, x)
    return tab[key][0](Z(ln), i)


class SpMat(E.StateObj):
    def __init__(self, shape, trip):
        self.fields = E.PyDict(shape=tuple(shape), trip=tuple(trip), elems=E.PyDict())

    def getattr_model(self, ex, attr, st):
        if attr == "shape":
            return self.fields["shape"]
        if attr in ("tocsc", "tocsr", "tocoo", "copy", "dot"):
            return E.Method(self, attr)
        raise Unsupported("sparse matrix attribute " + attr)

    def method_model(self, ex, name, args, kw, st, node):
        if name in ("tocsc", "tocsr", "tocoo"):
            return self
        if name == "copy":
            return SpMat(self.fields["shape"], self.fields["trip"])
        raise Unsupported("sparse matrix method " + name)

    def index(self, ex, idx, st, node):
        i = flatten_tuple_index(idx)
        if len(i) != 2 or not all(is_int(x) for x in i):
            raise Unsupported("sparse index")
        i = tuple(Z(as_int(x)) for x in i)
        for x, n in zip(i, self.fields["shape"]):
            ex.oblige(st, "bounds", "sparse", z3.And(x >= 0, x < Z(n)), ex.loc(node, st))
        return i

    def getitem_model(self, ex, idx, st, node):
        """one element: some number (the sum of its triplets, not expanded)"""
        i, j = self.index(ex, idx, st, node)
        key = f"{z3.simplify(i).sexpr()}|{z3.simplify(j).sexpr()}"
        el = self.fields["elems"]
        if key not in el:
            el[key] = F(False, z3.Real(ex.nm("elem")))
        return el[key]

    def setitem_model(self, ex, idx, v, st, node):
        cur = self.getitem_model(ex, idx, st, node)
        i, j = self.index(ex, idx, st, node)
        d = as_f(v)
        d = F(d.n, z3.simplify(d.v - cur.v))
        self.fields["elems"] = E.PyDict()
        self.fields["trip"] = self.fields["trip"] + ((1, lambda k: i, lambda k: j, lambda k: d),)

    def numbers(self):
        out = []
        for q, (ln, r, c, v) in enumerate(self.fields["trip"]):
            k = z3.Int(f"k!sp{q}")
            out.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(ln)), Z(NOT(as_f(v(k)).n)))))
        return out

    def row(self, ex, x, i):
        """row i of the product with x"""
        tot = z3.RealVal(0)
        for ln, r, c, v in self.fields["trip"]:
            tot = tot + seg_sum(ex, ln, lambda k, c=c, v=v: F(False, as_f(v(k)).v * x(Z(as_int(c(k))))), r, i)
        return tot

    def col(self, ex, y, j):
        """row j of the product of the transpose with y"""
        tot = z3.RealVal(0)
        for ln, r, c, v in self.fields["trip"]:
            tot = tot + seg_sum(ex, ln, lambda k, r=r, v=v: F(False, as_f(v(k)).v * y(Z(as_int(r(k))))), c, j)
        return tot


@reg("scipy.sparse.csc_matrix", "scipy.sparse.csr_matrix", "scipy.sparse.coo_matrix", "scipy.sparse.csc_array", "scipy.sparse.csr_array")
def _csc(ex, st, node, arg, shape=None, dtype=None, copy=None):
    if not (isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple) and len(arg[1]) == 2) or shape is None:
        raise Unsupported("sparse matrix from something else than triplets")
    v, (r, c) = arg
    pv, pr, pc = (pieces(ex, st, a) for a in (v, r, c))
    if not len(pv) == len(pr) == len(pc):
        raise Unsupported("triplets in different pieces")
    trip = []
    for q, ((n1, fv), (n2, fr), (n3, fc)) in enumerate(zip(pv, pr, pc)):
        ex.oblige(st, "shape", f"triplets{q}", z3.And(Z(n1) == Z(n2), Z(n2) == Z(n3)), ex.loc(node, st))
        k = z3.Int("k!sp")
        i, j = Z(as_int(fr(k))), Z(as_int(fc(k)))
        ex.oblige(st, "bounds", f"triplets{q}", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(n1)), z3.And(0 <= i, i < Z(shape[0]), 0 <= j, j < Z(shape[1])))), ex.loc(node, st))
        trip.append((n1, fr, fc, fv))
    return SpMat(shape, trip)


def solution(ex, st, n, tag):
    x = ex.fresh_arr(st, ex.nm(tag), (n,), "f", False)
    return x


@reg("scipy.sparse.linalg.spsolve")
def _spsolve(ex, st, node, A, b, permc_spec=None, use_umfpack=True):
    """ASSUMED contract: the matrix is square and of full rank (for the contract of the
    caller to show: the entry in ghost["solves"]), and the result is the vector of
    numbers x with A x = b (exactly)"""
    n = A.fields["shape"][1]
    ex.oblige(st, "shape", "spsolve", z3.And(Z(A.fields["shape"][0]) == Z(n), Z(b.shape[0]) == Z(n)), ex.loc(node, st))
    bg = getter(st, b)
    k = z3.Int("k!sp")
    for f in A.numbers():
        ex.oblige(st, "pre", "spsolve.matrix-of-numbers", f, ex.loc(node, st))
    ex.oblige(st, "pre", "spsolve.right-hand-side-of-numbers", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(n)), Z(NOT(as_f(bg((k,))).n)))), ex.loc(node, st))
    st0 = st.copy()
    x = solution(ex, st, n, "spsolve")
    xg = getter(st, x)
    eq = lambda i: A.row(ex, lambda c: as_f(xg((c,))).v, i) - as_f(bg((i,))).v
    i = z3.Int("i!sp")
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(n)), eq(i) == 0)))
    st.ghost["solves"] = st.ghost.get("solves", ()) + (dict(kind="spsolve", st0=st0, x=lambda c: as_f(xg((c,))).v, eq=eq, n=n, row=lambda y, i: A.row(ex, y, i)),)
    return x


@reg("scipy.sparse.linalg.lsqr")
def _lsqr(ex, st, node, A, b, damp=0.0, **kw):
    """ASSUMED contract: the first result is a vector of numbers x that minimises
    |A x - b|, i.e. A^T (A x - b) = 0 (exactly; the iterative solver gets there
    within its tolerance)"""
    m, n = A.fields["shape"]
    if damp != 0.0:
        raise Unsupported("damped lsqr")
    ex.oblige(st, "shape", "lsqr", Z(b.shape[0]) == Z(m), ex.loc(node, st))
    bg = getter(st, b)
    k = z3.Int("k!sp")
    for f in A.numbers():
        ex.oblige(st, "pre", "lsqr.matrix-of-numbers", f, ex.loc(node, st))
    ex.oblige(st, "pre", "lsqr.right-hand-side-of-numbers", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Z(m)), Z(NOT(as_f(bg((k,))).n)))), ex.loc(node, st))
    x = solution(ex, st, n, "lsqr")
    xg = getter(st, x)
    xv = lambda c: as_f(xg((c,))).v
    res = lambda r: A.row(ex, xv, r) - as_f(bg((r,))).v
    eq = lambda j: A.col(ex, res, j)
    i = z3.Int("i!sp")
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(n)), eq(i) == 0)))
    st.ghost["solves"] = st.ghost.get("solves", ()) + (dict(kind="lsqr", x=xv, eq=eq, n=n),)
    return (x,) + tuple(E.Opaque("lsqr") for _ in range(9))
