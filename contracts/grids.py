"""Rectilinear and tripolar grids (C17)."""
from .base import *

RECT, TRIP = "neutralocean/grid/rectilinear.py", "neutralocean/grid/tripolar.py"


def cell(ex, i, j, nj):
    """the number of cell (i, j): i * nj + j"""
    return NPM.uflat(ex, Z(i), Z(j), Z(nj))


def prev(i, n):
    return z3.If(i == 0, n - 1, i - 1)


def flat_given(ex, st, ni, nj, ps=()):
    for x in (ni, nj):
        st.assume(x >= 1)
    NPM.flat_axioms(ex)


def dim_data(ex, st, kind, name, ni, nj):
    """distances: a scalar, one per row, one per column, or one per cell"""
    if kind == "scalar":
        return fl(name)
    sh = {"row": (nj,), "col": (ni, 1), "full": (ni, nj)}[kind]
    return arr(ex, st, name, sh)


def at(x, kind, i, j):
    return {"scalar": lambda: x, "row": lambda: x[j], "col": lambda: x[i, 0], "full": lambda: x[i, j]}[kind]()


class _Rect(Contract):
    path = RECT
    modular = False
    per = (True, True)

    def dims(self, ex, st):
        ni, nj = z3.Ints("ni nj")
        st.assume(ni >= 1)
        st.assume(nj >= 1)
        i1, j1 = (int(not p) for p in self.per)
        NPM.flat_range(ex, ni, nj)
        NPM.flat_range(ex, ni - i1 if i1 else ni, nj)
        NPM.flat_range(ex, ni, nj - j1 if j1 else nj)
        return ni, nj

    def geo(self, c):
        ni, nj = z3.Ints("ni nj")
        i1, j1 = (int(not p) for p in self.per)
        i, j = z3.Ints("i!g j!g")
        in1 = AND(inr(i1, i, ni), inr(0, j, nj))
        in2 = AND(inr(0, i, ni), inr(j1, j, nj))
        E1 = (ni - i1) * nj
        k1 = cell(c.ex, i - i1 if i1 else i, j, nj)
        k2 = E1 + cell(c.ex, i, j - j1 if j1 else j, nj - j1 if j1 else nj)
        return ni, nj, i, j, in1, in2, k1, k2, E1 + ni * (nj - j1)

    def edge_posts(self, c, a, b, pre=""):
        ni, nj, i, j, in1, in2, k1, k2, E = self.geo(c)
        cl = lambda i, j: cell(c.ex, i, j, nj)
        return [
            (pre + "number", AND(Z(a.shape[0]) == E, Z(b.shape[0]) == E)),
            (pre + "first-dimension", forall([i, j], IMP(in1, AND(Z(a[k1]) == cl(i, j), Z(b[k1]) == cl(prev(i, ni), j))))),
            (pre + "second-dimension", forall([i, j], IMP(in2, AND(Z(a[k2]) == cl(i, j), Z(b[k2]) == cl(i, prev(j, nj)))))),
        ]

    def data_posts(self, c, d, x, y, kinds, pre=""):
        ni, nj, i, j, in1, in2, k1, k2, E = self.geo(c)
        return [
            (pre + "number", Z(d.shape[0]) == E),
            (pre + "first-dimension", forall([i, j], IMP(in1, feq(d[k1], at(x, kinds[0], i, j))))),
            (pre + "second-dimension", forall([i, j], IMP(in2, feq(d[k2], at(y, kinds[1], i, j))))),
        ]


class _Edges(_Rect):
    func, params = "_build_edges", ["dims", "periodic"]

    def setup(self, ex, st):
        return {"dims": self.dims(ex, st), "periodic": self.per}

    def ensures(self, c):
        return self.edge_posts(c, *c.res)


class _Data(_Rect):
    func, params = "_build_edgedata", ["dims", "periodic", "data"]
    kinds = ("scalar", "full")

    def setup(self, ex, st):
        ni, nj = self.dims(ex, st)
        return {"dims": (ni, nj), "periodic": self.per,
                "data": (dim_data(ex, st, self.kinds[0], "x", ni, nj), dim_data(ex, st, self.kinds[1], "y", ni, nj))}

    def ensures(self, c):
        x, y = c.old["data"]
        return self.data_posts(c, c.res, x, y, self.kinds)


class _Maps(_Rect):
    func, params = "edgedata_to_maps", ["edgedata", "dims", "periodic"]

    def setup(self, ex, st):
        ni, nj = self.dims(ex, st)
        i1, j1 = (int(not p) for p in self.per)
        return {"edgedata": arr(ex, st, "e", ((ni - i1) * nj + ni * (nj - j1),)), "dims": (ni, nj), "periodic": self.per}

    def ensures(self, c):
        ni, nj, i, j, in1, in2, k1, k2, E = self.geo(c)
        e = c.old["edgedata"]
        Fi, Fj = c.res
        cells = AND(inr(0, i, ni), inr(0, j, nj))
        return [
            ("shape", AND(*[AND(Z(x.shape[0]) == ni, Z(x.shape[1]) == nj) for x in (Fi, Fj)])),
            ("first-dimension", forall([i, j], IMP(in1, feq(Fi[i, j], e[k1])))),
            ("second-dimension", forall([i, j], IMP(in2, feq(Fj[i, j], e[k2])))),
            ("first-none", forall([i, j], IMP(AND(cells, NOT(in1)), as_f(Fi[i, j]).n))),
            ("second-none", forall([i, j], IMP(AND(cells, NOT(in2)), as_f(Fj[i, j]).n))),
        ]


class _Grid(_Rect):
    func, params = "build_grid", ["dims", "periodic", "dxC", "dyC", "dyG", "dxG"]
    names = ("dxC", "dyC", "dyG", "dxG")
    kinds = ("scalar",) * 4

    def setup(self, ex, st):
        ni, nj = self.dims(ex, st)
        d = {"dims": (ni, nj), "periodic": self.per}
        for n, k in zip(self.names, self.kinds):
            if k != "default":
                d[n] = dim_data(ex, st, k, n, ni, nj)
        return d

    def ensures(self, c):
        g = c.res
        v = []
        for n, k in zip(self.names, self.kinds):
            v.append((F(False, z3.RealVal(1)), "scalar") if k == "default" else (c.old[n], k))
        two = lambda a, b: ((v[a][0], v[b][0]), (v[a][1], v[b][1]))
        (x, y), kk = two(0, 1)
        (xp, yp), kp = two(2, 3)
        return (self.edge_posts(c, *g["edges"], pre="edges-") + self.data_posts(c, g["dist"], x, y, kk, "dist-")
                + self.data_posts(c, g["distperp"], xp, yp, kp, "distperp-"))


def tag(per):
    return "periodic=" + "".join("ny"[p] for p in per)


def mk(base, path, func, nm, **kw):
    UNITS.append(type(base.__name__.strip("_"), (base,), dict(name=f"{path}:{func}[{nm}]", __module__=__name__, **kw))())


for _p in ((True, True), (True, False), (False, True), (False, False)):
    mk(_Edges, RECT, "_build_edges", tag(_p), per=_p)
    for _k in (("full", "full"), ("scalar", "col"), ("row", "scalar"), ("col", "row")):
        mk(_Data, RECT, "_build_edgedata", tag(_p) + "," + "+".join(_k), per=_p, kinds=_k)
    mk(_Maps, RECT, "edgedata_to_maps", tag(_p), per=_p)
    for _n, _k in (("defaults", ("default",) * 4), ("full", ("full",) * 4), ("scalar", ("scalar",) * 4)):
        mk(_Grid, RECT, "build_grid", tag(_p) + "," + _n, per=_p, kinds=_k)


# ------------------------------------------------------------------ tripolar
class _Trip(Contract):
    path = TRIP
    modular = False

    def dims(self, ex, st):
        nj, ni = z3.Ints("nj ni")
        st.assume(ni >= 1)
        st.assume(nj >= 1)
        NPM.flat_range(ex, nj, ni)
        NPM.flat_range(ex, nj + 1, ni)
        return nj, ni

    def geo(self, c):
        nj, ni = z3.Ints("nj ni")
        j, i = z3.Ints("j!g i!g")
        ok = AND(inr(0, j, nj), inr(0, i, ni))
        k = cell(c.ex, j, i, ni)
        return nj, ni, j, i, ok, k, nj * ni + k

    def edge_posts(self, c, a, b, pre=""):
        nj, ni, j, i, ok, k1, k2 = self.geo(c)
        cl = lambda j, i: cell(c.ex, j, i, ni)
        north = z3.If(j == nj - 1, cl(nj - 1, ni - 1 - i), cl(j + 1, i))
        east = cl(j, z3.If(i == ni - 1, 0, i + 1))
        E = 2 * (nj * ni)
        return [
            (pre + "number", AND(Z(a.shape[0]) == E, Z(b.shape[0]) == E)),
            (pre + "north-fold", forall([j, i], IMP(ok, AND(Z(a[k1]) == k1, Z(b[k1]) == north)))),
            (pre + "east-wrap", forall([j, i], IMP(ok, AND(Z(a[k2]) == k1, Z(b[k2]) == east)))),
        ]

    def data_posts(self, c, d, v, u, kinds, pre=""):
        nj, ni, j, i, ok, k1, k2 = self.geo(c)
        f = lambda x, k: x[j, i + 1] if k == "halo" else at(x, k, j, i)
        return [
            (pre + "number", Z(d.shape[0]) == 2 * (nj * ni)),
            (pre + "north", forall([j, i], IMP(ok, feq(d[k1], f(v, kinds[0]))))),
            (pre + "east", forall([j, i], IMP(ok, feq(d[k2], f(u, kinds[1]))))),
        ]

    def data(self, ex, st, kind, name):
        nj, ni = z3.Ints("nj ni")
        if kind == "halo":
            return arr(ex, st, name, (nj + 1, ni + 2))
        return dim_data(ex, st, kind, name, nj, ni)


class _TEdges(_Trip):
    func, params = "_build_edges", ["dims"]

    def setup(self, ex, st):
        return {"dims": self.dims(ex, st)}

    def ensures(self, c):
        return self.edge_posts(c, *c.res)


class _TData(_Trip):
    func, params = "_build_edgedata", ["dims", "data"]
    kinds = ("full", "full")

    def setup(self, ex, st):
        d = self.dims(ex, st)
        return {"dims": d, "data": (self.data(ex, st, self.kinds[0], "v"), self.data(ex, st, self.kinds[1], "u"))}

    def ensures(self, c):
        v, u = c.old["data"]
        return self.data_posts(c, c.res, v, u, self.kinds)


class _TMaps(_Trip):
    func, params = "edgedata_to_maps", ["edgedata", "dims"]

    def setup(self, ex, st):
        nj, ni = self.dims(ex, st)
        return {"edgedata": arr(ex, st, "e", (2 * (nj * ni),)), "dims": (nj, ni)}

    def ensures(self, c):
        nj, ni, j, i, ok, k1, k2 = self.geo(c)
        e = c.old["edgedata"]
        v, u = c.res
        return [
            ("shape", AND(*[AND(Z(x.shape[0]) == nj, Z(x.shape[1]) == ni) for x in (v, u)])),
            ("north", forall([j, i], IMP(ok, feq(v[j, i], e[k1])))),
            ("east", forall([j, i], IMP(ok, feq(u[j, i], e[k2])))),
        ]


class _TGrid(_Trip):
    func, params = "build_grid", ["dims", "e1u", "e2v", "e2u", "e1v"]
    names = ("e1u", "e2v", "e2u", "e1v")
    kinds = ("scalar",) * 4

    def setup(self, ex, st):
        d = {"dims": self.dims(ex, st)}
        for n, k in zip(self.names, self.kinds):
            if k != "default":
                d[n] = self.data(ex, st, k, n)
        return d

    def ensures(self, c):
        g = c.res
        v = {}
        for n, k in zip(self.names, self.kinds):
            v[n] = (F(False, z3.RealVal(1)), "scalar") if k == "default" else (c.old[n], k)
        pair = lambda x, y: ((v[x][0], v[y][0]), (v[x][1], v[y][1]))
        (a, b), kk = pair("e2v", "e1u")
        (p, q), kp = pair("e1v", "e2u")
        return (self.edge_posts(c, *g["edges"], pre="edges-") + self.data_posts(c, g["dist"], a, b, kk, "dist-")
                + self.data_posts(c, g["distperp"], p, q, kp, "distperp-"))


mk(_TEdges, TRIP, "_build_edges", "any")
for _k in (("full", "full"), ("halo", "halo"), ("halo", "full"), ("full", "halo"), ("scalar", "col"), ("row", "scalar")):
    mk(_TData, TRIP, "_build_edgedata", "+".join(_k), kinds=_k)
mk(_TMaps, TRIP, "edgedata_to_maps", "any")
for _n, _k in (("defaults", ("default",) * 4), ("full", ("full",) * 4), ("halo", ("halo",) * 4), ("scalar", ("scalar",) * 4)):
    mk(_TGrid, TRIP, "build_grid", _n, kinds=_k)


class Flat(Lemma):
    """the facts about q * s + r used for the numbering of cells (flat_axioms, flat_range)"""
    func = name = "lemma:flat"

    def lemmas(self):
        q, r, s, p, t, n, x = z3.Ints("q r s p t n x")
        fl_ = lambda q, r: q * s + r
        rem = [0 <= r, r < s]
        yield "division", [s > 0], z3.And(0 <= x % s, x % s < s, fl_(x / s, x % s) == x)
        yield "quotient-sign", rem + [fl_(q, r) >= 0], q >= 0
        yield "unique-below", rem + [0 <= t, t < s, fl_(q, r) == fl_(p, t)], q <= p
        yield "range", rem + [0 <= q, q < n], z3.And(0 <= fl_(q, r), fl_(q, r) < n * s)
        yield "range-back", rem + [fl_(q, r) < n * s], q < n


UNITS.append(Flat())
