"""Contracts of the input conventions in neutralocean/lib.py."""
from .base import *  # noqa
from .arrays import LIBP, kept

DIMS = ("a", "b", "c", "d")


def labelled(ex, st, name, dims, shape):
    """a labelled array: every dimension has a coordinate; `area` spans the first
    dimension, `depth2` the dimension z and the first other one"""
    x = arr(ex, st, name, shape)
    co = {d: ((d,), d + "-values") for d in dims}
    other = [d for d in dims if d != "z"]
    if other:
        co["area"] = ((other[0],), "areas")
        if "z" in dims:
            co["depth2"] = (("z", other[0]), "depths2")
    co["when"] = ((), "time")
    return NPM.XArr(x, dims, co, {"units": name + "units"}, "name" + name)


def lateral_coords(dims):
    other = [d for d in dims if d != "z"]
    co = {d: ((d,), d + "-values") for d in other}
    if other:
        co["area"] = ((other[0],), "areas")
        co["depth2"] = ((other[0],), ("isel", "depths2", "z"))
    co["when"] = ((), "time")
    return co


def dims_of(rank, v):
    lat = list(DIMS[: rank - 1])
    return tuple(lat[:v] + ["z"] + lat[v:])


def mk_casts(rank, vdim, form, layout="alias"):
    """form: full | one (pressure per level) | bcast (same rank, length 1 off the
    vertical is not broadcast: given in full) | xr (labelled) | xr-one | xr-plain-p"""
    class Casts(Contract):
        path, func = LIBP, "_process_casts"
        params = ["S", "T", "P", "vert_dim"]
        modular = False
        options = {"require": layout}

        def setup(self, ex, st):
            sh = [z3.Int(f"n{i}") for i in range(rank)]
            for x in sh:
                st.assume(x >= 0)
            self.sh, self.v = sh, vdim % rank
            dims = dims_of(rank, self.v)
            mk = (lambda q, s, d: labelled(ex, st, q, d, s)) if form.startswith("xr") else (lambda q, s, d: arr(ex, st, q, s))
            d = {q: mk(q, sh, dims) for q in "ST"}
            one = form in ("one", "xr-one")
            self.one = one
            pm = mk if form != "xr-plain-p" else (lambda q, s, d: arr(ex, st, q, s))
            d["P"] = pm("P", (sh[self.v],), ("z",)) if one else pm("P", sh, dims)
            d["vert_dim"] = "z" if form.startswith("xr") and vdim >= 0 else vdim
            return d

        def data(self, x):
            return x.data if isinstance(x, NPM.XView) else x

        def ensures(self, c):
            v, sh = self.v, self.sh
            idx = [z3.Int(f"m{k}!c") for k in range(rank - 1)]
            j = z3.Int("j!c")
            want = sh[:v] + sh[v + 1:] + [sh[v]]
            out = []
            for q, r in zip("STP", c.res):
                if not isinstance(r, ArrV):
                    return [("array", False)]
                o = self.data(c.old[q])
                src = o[j] if q == "P" and self.one else o[tuple(idx[:v]) + (j,) + tuple(idx[v:])]
                out.append((q + "-shape", AND(len(r.shape) == rank, *[Z(a) == Z(b) for a, b in zip(r.shape, want)])))
                rng = AND(*[inr(0, i, n) for i, n in zip(idx + [j], want)])
                out.append((q + "-same", forall(idx + [j], IMP(rng, feq(r[tuple(idx) + (j,)], src)))))
                new = c[q] if False else None
            return out

    Casts.name = f"{LIBP}:_process_casts[rank={rank},vert_dim={vdim},{form}{',copied' if layout == 'copy' else ''}]"
    contract(Casts)


for _r in (1, 2, 3, 4):
    for _v in sorted({0, _r - 1, -1, -_r, 1 % _r}):
        mk_casts(_r, _v, "full")
        if _r > 1:
            mk_casts(_r, _v, "one")
for _r, _v, _f in ((2, 0, "xr"), (3, 1, "xr"), (3, -1, "xr"), (3, 0, "xr-one"), (2, -2, "xr-one"), (3, 2, "xr-plain-p")):
    mk_casts(_r, _v, _f)
mk_casts(2, 0, "full", "copy")
mk_casts(3, 1, "one", "copy")


# ------------------------------------------------------------------ vert_dim
def mk_vd(rank):
    class VD(Contract):
        path, func = LIBP, "_process_vert_dim"
        params = ["vert_dim", "S"]
        modular = False
        numba = False

        def setup(self, ex, st):
            sh = [z3.Int(f"n{i}") for i in range(rank)]
            for x in sh:
                st.assume(x >= 0)
            v = z3.Int("v")
            st.assume(z3.And(-rank <= v, v < rank))
            return {"vert_dim": v, "S": arr(ex, st, "S", sh)}

        def ensures(self, c):
            v, r = Z(c.old["vert_dim"]), Z(as_int(c.res))
            return [("axis", r == z3.If(v >= 0, v, v + rank))]

    VD.name = f"{LIBP}:_process_vert_dim[rank={rank}]"
    contract(VD)

    class VN(VD):
        def setup(self, ex, st):
            sh = [z3.Int(f"n{i}") for i in range(rank)]
            for x in sh:
                st.assume(x >= 0)
            self.v = rank // 2
            return {"vert_dim": "z", "S": labelled(ex, st, "S", dims_of(rank, self.v), sh)}

        def ensures(self, c):
            return [("axis", Z(as_int(c.res)) == self.v)]

    VN.name = f"{LIBP}:_process_vert_dim[rank={rank},name]"
    contract(VN)

    class VX(VN):
        must_raise = ["ValueError"]

        def setup(self, ex, st):
            d = VN.setup(self, ex, st)
            d["vert_dim"] = "q"
            return d

        def ensures(self, c):
            return []

    VX.name = f"{LIBP}:_process_vert_dim[rank={rank},unknown name]"
    contract(VX)


for _r in (1, 2, 3):
    mk_vd(_r)


# ------------------------------------------------------------------ labels of the outputs
def mk_labels(rank, v, named, pform):
    dims = dims_of(rank, v)

    class In(Contract):
        path, func = LIBP, "_xrs_in"
        params = ["S", "T", "P", "vert_dim"]
        modular = False

        def setup(self, ex, st):
            sh = [z3.Int(f"n{i}") for i in range(rank)]
            for x in sh:
                st.assume(x >= 1)
            d = {q: labelled(ex, st, q, dims, sh) for q in "ST"}
            d["P"] = labelled(ex, st, "P", ("z",), (sh[v],)) if pform == "one" else labelled(ex, st, "P", dims, sh) if pform == "full" else arr(ex, st, "P", sh)
            d["vert_dim"] = "z" if named else v - rank
            return d

        def ensures(self, c):
            o = c.old
            out = []
            lat = tuple(d for d in dims if d != "z")
            for q, r in zip("STP", c.res):
                if not isinstance(r, NPM.XView):
                    return [(q + "-labelled", False)]
                src = o[q]
                nm, at = (src.name, src.attrs) if isinstance(src, NPM.XView) else (None, {})
                # a broadcast or plain pressure is not copied from S: attributes of S are updated with those of P
                if q == "P" and isinstance(src, NPM.XView):
                    at = {**o["S"].attrs, **at}
                out += [(q + "-dims", r.dims == lat), (q + "-coords", r.coords == lateral_coords(dims)), (q + "-name", r.name == nm), (q + "-attrs", r.attrs == at)]
                x = c[q]
                out.append((q + "-input-kept", isinstance(x, NPM.XView) and x.same_labels(src) if isinstance(src, NPM.XView) else True))
            return out

    In.name = f"{LIBP}:_xrs_in[rank={rank},axis={v}{',named' if named else ''},P {pform}]"
    contract(In)


for _a in ((2, 0, True, "full"), (2, 1, False, "full"), (3, 0, False, "one"), (3, 1, True, "plain"), (3, 2, False, "plain"), (3, 2, True, "one")):
    mk_labels(*_a)


@contract
class XrInPlain(Contract):
    path, func = LIBP, "_xrs_in"
    params = ["S", "T", "P", "vert_dim"]
    modular = False
    name = f"{LIBP}:_xrs_in[plain]"

    def setup(self, ex, st):
        n, m = z3.Ints("n m")
        d = {q: arr(ex, st, q, (n, m)) for q in "STP"}
        d["vert_dim"] = -1
        return d

    def ensures(self, c):
        return [("nothing", all(x is None for x in c.res))]


@contract
class XrOut(Contract):
    path, func = LIBP, "_xr_out"
    params = ["s", "sxr"]
    modular = False
    name = f"{LIBP}:_xr_out[labelled]"

    def setup(self, ex, st):
        n, m = z3.Ints("n m")
        return {"s": arr(ex, st, "s", (n, m)), "sxr": labelled(ex, st, "X", ("a", "b"), (n, m))}

    def ensures(self, c):
        r, o = c.res, c.old
        if not isinstance(r, NPM.XView):
            return [("labelled", False)]
        i, j = z3.Ints("i!o j!o")
        return [("labels", r.same_labels(o["sxr"])),
                ("data", forall([i, j], IMP(AND(inr(0, i, o["s"].shape[0]), inr(0, j, o["s"].shape[1])), feq(r.data[i, j], o["s"][i, j]))))]


@contract
class XrOutPlain(Contract):
    path, func = LIBP, "_xr_out"
    params = ["s", "sxr"]
    modular = False
    name = f"{LIBP}:_xr_out[plain]"

    def setup(self, ex, st):
        n, m = z3.Ints("n m")
        return {"s": arr(ex, st, "s", (n, m)), "sxr": None}

    def ensures(self, c):
        r, o = c.res, c.old
        if not isinstance(r, ArrV):
            return [("plain", False)]
        i, j = z3.Ints("i!o j!o")
        return [("data", forall([i, j], IMP(AND(inr(0, i, o["s"].shape[0]), inr(0, j, o["s"].shape[1])), feq(r[i, j], o["s"][i, j]))))]


# ------------------------------------------------------------------ pinning cast
def mk_pin(kind):
    class Pin(Contract):
        path, func = LIBP, "_process_pin_cast"
        params = ["pin_cast", "S"]
        modular = False

        def setup(self, ex, st):
            n, m, z = z3.Ints("n m z")
            self.i, self.j = i, j = z3.Ints("i j")
            st.assume(z3.And(n >= 1, m >= 1, z >= 1))
            S = labelled(ex, st, "S", ("a", "z", "b"), (n, z, m))
            if kind.startswith("dict"):
                # strictly increasing coordinates; (x, y) are those of cast (i, j)
                st.assume(z3.And(0 <= i, i < n, 0 <= j, j < m))
                p, q = z3.Ints("p!x q!x")
                val = {}
                for d, k, num in (("a", i, n), ("b", j, m)):
                    xs = ArrV(fresh_content(d + "co", (num,), "f", nan=False, name=d + "co"))
                    S.fields["coords"][d] = ((d,), xs)
                    st.assume(forall([p, q], IMP(AND(0 <= p, p < q, q < num), as_f(xs[p]).v < as_f(xs[q]).v)))
                    val[d] = xs[k]
                order = "ab" if kind == "dict" else "ba"
                pc = PyDict((d, val[d]) for d in order)
            else:
                pc = {"int": i, "tuple": (i, j), "list": [i, j], "none": None}[kind]
            return {"pin_cast": pc, "S": S}

        def ensures(self, c):
            r = c.res
            if kind == "none":
                return [("none", r is None)]
            want = (self.i,) if kind == "int" else (self.i, self.j)
            return [("index", isinstance(r, tuple) and len(r) == len(want) and AND(*[Z(a) == b for a, b in zip(r, want)]))]

    Pin.name = f"{LIBP}:_process_pin_cast[{kind}]"
    contract(Pin)


for _k in ("int", "tuple", "list", "none", "dict", "dict-other-order"):
    mk_pin(_k)
