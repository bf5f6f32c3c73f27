"""Semantics of the NumPy / builtin operations the verified code uses.

Everything here is an assumption about the dependencies (listed in the evidence
as trusted): elementwise arithmetic, indexing, slicing, views, reshape in C
order, np.roll, np.searchsorted on a sorted array, and so on.  An operation that
is not modelled raises Unsupported."""
import ast
from fractions import Fraction
import z3
from .values import *  # noqa
from .values import Unsupported
from . import engine as E

NP = ("np.", "numpy.")


# ---------------------------------------------------------------- attributes
DTYPES = {
    "float64": "f", "float_": "f", "double": "f", "int_": "i", "int64": "i", "intp": "i", "int32": "i",
    "bool_": "b", "bool": "b",
}


class DType:
    def __init__(self, kind):
        self.kind = kind


def attribute(ex, b, attr, st, node):
    if isinstance(b, E.ModRef):
        full = canon(b.name + "." + attr)
        if full in ("np.nan", "np.NaN", "math.nan"):
            return NAN
        if full in ("np.inf", "math.inf"):
            return PInf(1)
        if full == "np.pi" or full == "math.pi":
            return F(False, z3.Real("pi"))
        if full == "np.newaxis":
            return None
        if full.startswith("np.") and full[3:] in DTYPES:
            return DType(DTYPES[full[3:]])
        return E.Builtin(full)
    if isinstance(b, E.Builtin):
        return E.Builtin(b.name + "." + attr)
    if isinstance(b, E.Module):
        if attr in ("__getattribute__", "__getattr__"):
            return E.Method(b, "getattr")
        return ex.global_name(b, attr, st)
    if isinstance(b, Arr):
        if attr == "shape":
            return b.shape
        if attr == "size":
            out = 1
            for s in b.shape:
                out = MUL(out, s)
            return out
        if attr == "ndim":
            return b.ndim
        if attr == "dtype":
            return DType(st.heap[b.cell].kind)
        if attr == "T":
            return transpose(ex, b, None, st)
        if attr in ("values", "dims", "attrs", "name", "coords"):
            raise E.Raises("AttributeError")
        if attr == "data":
            raise Unsupported("attribute data of an array")
        return E.Method(b, attr)
    if isinstance(b, FInfo):
        if attr == "eps":
            return F(False, z3.RealVal(Fraction(1, 2**52)))
        if attr == "max":
            return b.max
        raise Unsupported("finfo." + attr)
    if isinstance(b, (E.PyDict, list, str, tuple)):
        return E.Method(b, attr)
    if isinstance(b, E.Opaque):
        return E.Opaque(b.tag + "." + attr)
    if isinstance(b, (F,)) or is_num(b):
        if attr in ("ndim", "size"):
            return 0 if attr == "ndim" else 1
        if attr == "shape":
            return ()
        return E.Method(b, attr)
    if isinstance(b, XArr):
        return b.getattr_model(ex, attr, st)
    if hasattr(b, "method_model"):
        return E.Method(b, attr)
    if hasattr(b, "getattr_model"):
        return b.getattr_model(ex, attr, st)
    raise Unsupported(f"attribute {attr} of {b!r}")


class FInfo:
    def __init__(self, mx=None):
        self.max = mx


def canon(n):
    if n.startswith("numpy."):
        return "np." + n[6:]
    return n


# ---------------------------------------------------------------- helpers
def kind_of(v):
    if isb(v):
        return "b"
    if is_int(v):
        return "i"
    return "f"


def cast(v, kind):
    if kind == "f":
        return as_f(v)
    if kind == "i":
        if isinstance(v, F):
            raise Unsupported("float stored in an int array")
        return as_int(v)
    if kind == "b":
        if isb(v):
            return v
        raise Unsupported("non-bool stored in a bool array")
    return v


def read(st, a, idx):
    ct = st.heap[a.cell]
    return ct.get(a.imap(tuple(idx)) if a.imap else tuple(idx))


def getter(st, a):
    """snapshot getter of an array value"""
    ct = st.heap[a.cell]
    im = a.imap
    if im is None:
        return ct.get
    return lambda idx: ct.get(im(tuple(idx)))


def one(x):
    return isinstance(x, int) and x == 1


def dim_eq(ex, st, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if same(a, b):
        return True
    if not isinstance(a, int) and not isinstance(b, int) and Z(a).eq(Z(b)):
        return True
    return None


def bcast_shapes(ex, st, shapes, node=None):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        cur = 1
        for s in shapes:
            k = d - (n - len(s))
            if k < 0:
                continue
            x = s[k]
            if one(x):
                continue
            if one(cur):
                cur = x
                continue
            e = dim_eq(ex, st, cur, x)
            if e is True:
                continue
            if e is False:
                raise Unsupported("shapes cannot broadcast")
            ex.oblige(st, "shape", "broadcast", Z(cur) == Z(x), ex.loc(node, st) if node is not None else "?")
        out.append(cur)
    return tuple(out)


def bget(get, shape, n):
    """getter of an array of `shape` broadcast to n dims"""
    off = n - len(shape)

    def g(idx):
        return get(tuple(0 if one(shape[k]) else idx[off + k] for k in range(len(shape))))

    return g


def elementwise(ex, st, fn, args, node=None, kind=None):
    arrs = [a for a in args if isinstance(a, Arr)]
    shape = bcast_shapes(ex, st, [a.shape for a in arrs], node)
    n = len(shape)
    gs = []
    for a in args:
        if isinstance(a, Arr):
            gs.append(bget(getter(st, a), a.shape, n))
        else:
            gs.append(lambda idx, a=a: a)

    def get(idx):
        return fn(*[g(idx) for g in gs])

    if kind is None:
        probe = get(tuple(z3.Int(f"probe{k}") for k in range(n)))
        kind = kind_of(probe)
    return ex.new_arr(st, Content(shape, kind, get))


# ---------------------------------------------------------------- arithmetic
def fadd(a, b):
    return F(OR(a.n, b.n), a.v + b.v)


def fsub(a, b):
    return F(OR(a.n, b.n), a.v - b.v)


def is_zero(v):
    return z3.is_rational_value(v) and v.numerator_as_long() == 0


def is_one(v):
    return z3.is_rational_value(v) and v.numerator_as_long() == 1 and v.denominator_as_long() == 1


def fmul(a, b):
    if is_one(a.v):
        return F(OR(a.n, b.n), b.v)
    if is_one(b.v):
        return F(OR(a.n, b.n), a.v)
    return F(OR(a.n, b.n), a.v * b.v)


divnan = z3.Function("divnan", z3.RealSort(), z3.RealSort(), z3.BoolSort())


def fdiv_arr(a, b):
    # array division: 0/0 is NaN, x/0 is infinite (not modelled): unspecified
    if z3.is_rational_value(b.v) and not is_zero(b.v):
        return F(OR(a.n, b.n), a.v / b.v)
    return F(OR(a.n, b.n, AND(b.v == 0, divnan(a.v, b.v))), a.v / b.v)


def num(x):
    if isinstance(x, float):
        return as_f(x)
    return x


def binop(ex, op, a, b, st, node):
    if isinstance(a, E.MaybeDef):
        a = a.val
    if isinstance(a, Arr) or isinstance(b, Arr):
        for z in (a, b):
            if isinstance(z, E.Opaque):
                return E.Opaque("arr")
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            raise Unsupported("array op sequence")
        return elementwise(ex, st, lambda x, y: scalar_op(ex, op, x, y, st, node, arr=True), [a, b], node)
    if isinstance(a, E.Opaque) or isinstance(b, E.Opaque):
        return E.Opaque("expr")
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and op == "Add":
        return type(a)(list(a) + list(b)) if isinstance(a, list) else tuple(a) + tuple(b)
    if isinstance(a, (tuple, list)) and isinstance(b, int) and op == "Mult":
        return a * b
    if isinstance(a, str) and op in ("Add", "Mod"):
        if isinstance(b, str) and op == "Add":
            return a + b
        return "<str>"
    return scalar_op(ex, op, a, b, st, node)


def scalar_op(ex, op, a, b, st, node, arr=False):
    a, b = num(a), num(b)
    if not is_num(a) or not is_num(b):
        raise Unsupported(f"{op} of {a!r}, {b!r}")
    if op in ("BitAnd", "BitOr", "BitXor") and isb(a) and isb(b):
        return AND(a, b) if op == "BitAnd" else OR(a, b) if op == "BitOr" else NOT(IFF(a, b))
    if op in ("Add", "Sub", "Mult"):
        if not isinstance(a, (F, PInf)) and not isinstance(b, (F, PInf)):
            a, b = as_int(a), as_int(b)
            return ADD(a, b) if op == "Add" else SUB(a, b) if op == "Sub" else MUL(a, b)
        a, b = as_f(a), as_f(b)
        return fadd(a, b) if op == "Add" else fsub(a, b) if op == "Sub" else fmul(a, b)
    if op == "Div":
        a, b = as_f(a), as_f(b)
        if arr:
            return fdiv_arr(a, b)
        return fdiv(ex, a, b, st, node)
    if op in ("FloorDiv", "Mod"):
        if isinstance(a, F) or isinstance(b, F):
            raise Unsupported("float //")
        a, b = as_int(a), as_int(b)
        if isinstance(a, int) and isinstance(b, int) and b != 0:
            return a // b if op == "FloorDiv" else a % b
        if not arr:
            ex.oblige(st, "div0", op, Z(b) != 0, ex.loc(node, st))
        # python floor semantics equal SMT-LIB div/mod for a positive divisor
        if isinstance(b, int):
            if b > 0:
                return Z(a) / b if op == "FloorDiv" else Z(a) % b
            raise Unsupported("negative divisor")
        if not arr:
            ex.oblige(st, "div0", op + "-positive", Z(b) > 0, ex.loc(node, st))
        return Z(a) / Z(b) if op == "FloorDiv" else Z(a) % Z(b)
    if op == "Pow":
        if isinstance(b, int):
            k = b
        elif isinstance(b, F) and z3.is_rational_value(b.v) and b.v.denominator_as_long() == 1:
            k = b.v.numerator_as_long()
        elif isinstance(b, F) and z3.is_rational_value(b.v) and b.v.denominator_as_long() == 2 and b.v.numerator_as_long() > 0:
            r = fsqrt(ex, as_f(a))
            out = r
            for _ in range(b.v.numerator_as_long() - 1):
                out = fmul(out, r)
            return out
        else:
            raise Unsupported("power")
        if isinstance(a, int):
            return a**k if k >= 0 else as_f(Fraction(1, a**-k))
        if k < 0:
            raise Unsupported("negative power")
        if not isinstance(a, F):
            out = 1
            for _ in range(k):
                out = MUL(out, as_int(a))
            return out
        out = rv(1)
        for _ in range(k):
            out = fmul(out, a)
        return out
    raise Unsupported(f"operator {op}")


def fdiv(ex, a, b, st, node):
    if not (z3.is_rational_value(b.v) and not is_zero(b.v)) and ex.contract.check_div:
        ex.oblige(st, "div0", "division", OR(b.n, b.v != 0), ex.loc(node, st))
    if ex.contract.options.get("div_var") and not z3.is_rational_value(b.v):
        q = z3.Real(ex.nm("quot"))
        st.assume(z3.Implies(b.v != 0, q * b.v == a.v))
        return F(OR(a.n, b.n), q)
    return F(OR(a.n, b.n), a.v / b.v)


def fsqrt(ex, a):
    s = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
    v = s(a.v)
    ex.axiom(z3.Implies(a.v >= 0, z3.And(v >= 0, v * v == a.v)))
    return F(OR(a.n, a.v < 0), v)


def unop(ex, op, v, st):
    if isinstance(v, Arr):
        return elementwise(ex, st, lambda x: unop(ex, op, x, st), [v])
    if isinstance(v, E.Opaque):
        return E.Opaque("expr")
    if op == "Not":
        return NOT(ex.truth(v, st))
    if op == "USub":
        if isinstance(v, PInf):
            return PInf(-v.sign)
        if isinstance(v, F):
            return F(v.n, -v.v)
        v = as_int(v)
        return -v
    if op == "UAdd":
        return v
    if op == "Invert":
        if isb(v):
            return NOT(v)
        raise Unsupported("~ of a number")
    raise Unsupported(op)


def compare(ex, op, a, b, st):
    if op in ("Is", "IsNot"):
        r = is_same(a, b)
        return r if op == "Is" else NOT(r)
    if op in ("In", "NotIn"):
        r = contains(ex, a, b, st)
        return r if op == "In" else NOT(r)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None:
            return op == "NotEq"
        return elementwise(ex, st, lambda x, y: cmp_scalar(op, x, y), [a, b])
    if isinstance(a, E.Opaque) or isinstance(b, E.Opaque):
        return z3.Bool(ex.nm("opaque"))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if op not in ("Eq", "NotEq"):
            raise Unsupported("tuple order")
        if len(a) != len(b):
            return op == "NotEq"
        r = AND(*[compare(ex, "Eq", x, y, st) for x, y in zip(a, b)])
        return r if op == "Eq" else NOT(r)
    if is_num(a) and is_num(b):
        return cmp_scalar(op, a, b)
    # python objects
    if isinstance(a, (str, type(None), tuple, list)) or isinstance(b, (str, type(None))):
        if op == "Eq":
            return type(a) == type(b) and a == b
        if op == "NotEq":
            return not (type(a) == type(b) and a == b)
    raise Unsupported(f"compare {op} {a!r} {b!r}")


def is_same(a, b):
    if a is None or b is None:
        if isinstance(a, E.Opaque) or isinstance(b, E.Opaque):
            raise Unsupported("opaque is None")
        return a is b
    if isinstance(a, DType) or isinstance(b, DType) or isinstance(a, E.Builtin) or isinstance(b, E.Builtin):
        return isinstance(a, E.Builtin) and isinstance(b, E.Builtin) and a.name == b.name
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    raise Unsupported("is")


def contains(ex, a, b, st):
    if isinstance(b, E.PyDict):
        if isinstance(a, str) and a not in b.loopvar:
            return a in b
        raise Unsupported("in dict")
    if isinstance(b, (tuple, list)):
        if isinstance(a, str):
            return any(isinstance(x, str) and x == a for x in b)
        if is_num(a):
            return OR(*[compare(ex, "Eq", a, x, st) for x in b if is_num(x)])
    if isinstance(b, str) and isinstance(a, str):
        return a in b
    raise Unsupported("in")


def cmp_scalar(op, a, b):
    a, b = num(a), num(b)
    if isb(a) and isb(b) and op in ("Eq", "NotEq"):
        r = IFF(a, b)
        return r if op == "Eq" else NOT(r)
    if not isinstance(a, (F, PInf)) and not isinstance(b, (F, PInf)):
        a, b = as_int(a), as_int(b)
        if isinstance(a, int) and isinstance(b, int):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b, "Eq": a == b, "NotEq": a != b}[op]
        a, b = Z(a), Z(b)
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b, "Eq": a == b, "NotEq": a != b}[op]
    a, b = as_f(a), as_f(b)
    x, y = a.v, b.v
    ok = AND(NOT(a.n), NOT(b.n))
    if op == "NotEq":
        return OR(a.n, b.n, x != y)
    r = {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y, "Eq": x == y}[op]
    if z3.is_rational_value(x) and z3.is_rational_value(y):
        r = z3.is_true(z3.simplify(r))
    return AND(ok, r)


# ---------------------------------------------------------------- indexing
def norm_index(ex, st, i, n, node, check=True):
    """index with python wrap-around -> nonnegative term (bounds obligation)"""
    if isinstance(i, int) and isinstance(n, int):
        if -n <= i < n:
            return i % n if n else i
        if check:
            ex.oblige(st, "bounds", f"index", False, ex.loc(node, st) if node is not None else "?")
        return i
    if isinstance(i, int):
        if i < 0:
            if check:
                ex.oblige(st, "bounds", "index", Z(n) >= -i, ex.loc(node, st) if node is not None else "?")
            return ADD(n, i)
        if check:
            ex.oblige(st, "bounds", "index", z3.IntVal(i) < Z(n), ex.loc(node, st) if node is not None else "?")
        return i
    i = Z(i)
    nn = Z(n)
    if not check or ex.quiet or ex.entails(st, i >= 0):
        if check:
            ex.oblige(st, "bounds", "index", z3.And(i >= 0, i < nn), ex.loc(node, st) if node is not None else "?")
        return i
    ex.oblige(st, "bounds", "index", z3.And(i >= -nn, i < nn), ex.loc(node, st) if node is not None else "?")
    return named_int(ex, st, z3.If(i < 0, i + nn, i))


def named_int(ex, st, t):
    """a constant for a large index term (its definition goes to the path)"""
    if ex.quiet or not z3.is_expr(t) or not has_ite(t):
        return t
    tab = ex.__dict__.setdefault("named_ints", {})
    t = z3.simplify(t)
    if not has_ite(t):
        return t
    if t.get_id() not in tab:
        v = z3.Int(f"ix!{len(tab)}!{ex.unm('ix')}")
        tab[t.get_id()] = (v, v == t, t)
    v, d, _ = tab[t.get_id()]
    if not any(d.eq(f) for f in st.pc):
        st.assume(d)
    return v


def has_ite(t):
    todo = [t]
    n = 0
    while todo and n < 200:
        x = todo.pop()
        n += 1
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return True
        todo.extend(x.children())
    return n >= 200


def norm_slice(ex, st, s, n, node):
    """-> (lo, length, step) with python clamping"""
    if s.step is not None and s.step != 1:
        if s.step == -1 and s.start is None and s.stop is None:
            return None
        raise Unsupported("slice step")

    def clamp(x, default):
        if x is None:
            return default
        x = as_int(x)
        if isinstance(x, int) and isinstance(n, int):
            if x < 0:
                x = max(0, x + n)
            return min(x, n)
        if isinstance(x, int) and x >= 0:
            if x == 0:
                return 0
            if ex.entails(st, Z(n) >= x):
                return x
            return z3.If(Z(n) < x, Z(n), z3.IntVal(x))
        if isinstance(x, int) and x < 0:
            if ex.entails(st, Z(n) + x >= 0):
                return ADD(n, x)
            return z3.If(Z(n) + x < 0, z3.IntVal(0), Z(n) + x)
        xx, nn = Z(x), Z(n)
        if ex.entails(st, z3.And(xx >= 0, xx <= nn)):
            return x
        y = z3.If(xx < 0, z3.If(xx + nn < 0, z3.IntVal(0), xx + nn), z3.If(xx > nn, nn, xx))
        return y

    lo = named_int(ex, st, clamp(s.start, 0))
    hi = named_int(ex, st, clamp(s.stop, n))
    ln = SUB(hi, lo)
    if isinstance(ln, int):
        ln = max(0, ln)
    elif not ex.entails(st, Z(ln) >= 0):
        ln = named_int(ex, st, z3.If(Z(ln) < 0, z3.IntVal(0), Z(ln)))
    return lo, ln


def expand_ellipsis(idx, ndim):
    used = sum(1 for i in idx if i is not None and i is not Ellipsis)
    # boolean mask arrays consume their own ndim
    used += sum(i.ndim - 1 for i in idx if isinstance(i, Arr) and getattr(i, "is_mask", False))
    if any(i is Ellipsis for i in idx):
        k = [j for j, i in enumerate(idx) if i is Ellipsis][0]
        return idx[:k] + (slice(None),) * (ndim - used) + idx[k + 1:]
    return idx + (slice(None),) * (ndim - used)


def flatten_tuple_index(idx):
    out = []
    for i in idx:
        if isinstance(i, tuple):
            out.extend(i)
        else:
            out.append(i)
    return tuple(out)


def getitem(ex, b, idx, st, node, check=True):
    if isinstance(b, E.MaybeDef):
        b = b.val
    if isinstance(b, E.StateObj) and hasattr(b, "getitem_model"):
        return b.getitem_model(ex, idx, st, node)
    if isinstance(b, (tuple, list)):
        if len(idx) == 1:
            i = idx[0]
            if isinstance(i, slice):
                def cv(x):
                    return None if x is None else as_int(x)
                s = slice(cv(i.start), cv(i.stop), cv(i.step))
                if all(x is None or isinstance(x, int) for x in (s.start, s.stop, s.step)):
                    return b[s]
                raise Unsupported("symbolic slice of a tuple")
            if isinstance(i, int) and not isinstance(i, bool):
                if not -len(b) <= i < len(b):
                    ex.oblige(st, "bounds", "tuple index", False, ex.loc(node, st))
                    return E.Opaque("oob")
                return b[i]
            if is_int(i) and all(is_num(x) for x in b):
                if check:
                    ex.oblige(st, "bounds", "tuple index", z3.And(i >= 0, i < len(b)), ex.loc(node, st))
                r = b[-1]
                for j in range(len(b) - 2, -1, -1):
                    r = ITE(i == j, b[j], r)
                return r
        raise Unsupported("tuple index")
    if isinstance(b, E.PyDict):
        k = idx[0]
        if isinstance(k, (str, int)):
            if k in b and not isinstance(b[k], E.Undef):
                return b[k]
            raise Unsupported(f"key {k} missing")
        raise Unsupported("dict key")
    if isinstance(b, E.Opaque):
        return E.Opaque(b.tag + "[]")
    if isinstance(b, str):
        raise Unsupported("string index")
    if hasattr(b, "getitem_model"):
        return b.getitem_model(ex, idx, st, node)
    if not isinstance(b, Arr):
        raise Unsupported(f"index of {b!r}")
    idx = flatten_tuple_index(idx)
    if any(isinstance(i, Arr) for i in idx):
        return fancy_get(ex, b, idx, st, node)
    idx = expand_ellipsis(idx, b.ndim)
    shape = []
    parts = []  # for each base dim: ('i', term) | ('s', lo, pos)
    d = 0
    for i in idx:
        if i is None:
            shape.append(1)
            continue
        if d >= b.ndim:
            raise Unsupported("too many indices")
        if isinstance(i, slice):
            ns = norm_slice(ex, st, i, b.shape[d], node)
            if ns is None:
                parts.append(("r", b.shape[d], len(shape)))
                shape.append(b.shape[d])
            else:
                lo, ln = ns
                parts.append(("s", lo, len(shape)))
                shape.append(ln)
        else:
            if not is_int(i):
                if isb(i):
                    raise Unsupported("bool index")
                raise Unsupported(f"index {i!r}")
            parts.append(("i", norm_index(ex, st, i, b.shape[d], node, check), None))
        d += 1
    if all(p[0] == "i" for p in parts) and not shape:
        return read(st, b, tuple(p[1] for p in parts))
    base = b.imap

    def imap(v, parts=tuple(parts), base=base):
        out = []
        for p in parts:
            if p[0] == "i":
                out.append(p[1])
            elif p[0] == "s":
                out.append(ADD(v[p[2]], p[1]))
            else:
                out.append(SUB(SUB(p[1], 1), v[p[2]]))
        return base(tuple(out)) if base else tuple(out)

    return Arr(b.cell, tuple(shape), imap)


def fancy_get(ex, b, idx, st, node):
    """integer-array indexing (one index array, or all index arrays same shape)"""
    arrs = [i for i in idx if isinstance(i, Arr)]
    kinds = [st.heap[i.cell].kind for i in arrs]
    if "b" in kinds:
        if len(idx) == 1 and idx[0].ndim == b.ndim == 1:
            return mask_select(ex, b, idx[0], st, node)
        raise Unsupported("boolean mask read")
    idx = expand_ellipsis(idx, b.ndim)
    pos = [k for k, i in enumerate(idx) if isinstance(i, Arr)]
    if pos != list(range(pos[0], pos[0] + len(pos))):
        raise Unsupported("non-adjacent index arrays")
    if any(i is None for i in idx):
        raise Unsupported("newaxis with fancy index")
    fshape = bcast_shapes(ex, st, [a.shape for a in arrs], node)
    nf = len(fshape)
    gets = {}
    for k in pos:
        g = bget(getter(st, idx[k]), idx[k].shape, nf)
        n = b.shape[k]
        gets[k] = (g, n)
        # bounds for every element
        q = [z3.Int(ex.nm("q")) for _ in range(nf)]
        rng = [z3.And(x >= 0, x < Z(s)) for x, s in zip(q, fshape)]
        v = Z(g(tuple(q)))
        ex.oblige(st, "bounds", "fancy", z3.ForAll(q, z3.Implies(z3.And(*rng), z3.And(v >= -Z(n), v < Z(n)))) if q else z3.And(v >= 0, v < Z(n)), ex.loc(node, st))
    pre = []
    post = []
    for k, i in enumerate(idx):
        if k in gets:
            continue
        (pre if k < pos[0] else post).append((k, i))
    bg = getter(st, b)
    shape = []
    plan = []
    for k, i in pre:
        if isinstance(i, slice):
            lo, ln = norm_slice(ex, st, i, b.shape[k], node)
            plan.append((k, "s", lo, len(shape)))
            shape.append(ln)
        else:
            plan.append((k, "i", norm_index(ex, st, i, b.shape[k], node), None))
    f0 = len(shape)
    shape.extend(fshape)
    for k, i in post:
        if isinstance(i, slice):
            lo, ln = norm_slice(ex, st, i, b.shape[k], node)
            plan.append((k, "s", lo, len(shape)))
            shape.append(ln)
        else:
            plan.append((k, "i", norm_index(ex, st, i, b.shape[k], node), None))

    def get(v):
        out = [None] * b.ndim
        for k, t, x, p in plan:
            out[k] = x if t == "i" else ADD(v[p], x)
        fi = tuple(v[f0 + j] for j in range(nf))
        for k, (g, n) in gets.items():
            i = g(fi)
            if isinstance(i, int):
                out[k] = i if i >= 0 else ADD(n, i)
            else:
                out[k] = z3.If(i < 0, i + Z(n), i) if not ex.contract.options.get("nonneg_fancy") else i
        return bg(tuple(out))

    return ex.new_arr(st, Content(tuple(shape), st.heap[b.cell].kind, get))


def mask_select(ex, b, mask, st, node):
    """x[mask]: the selected elements in order.  The selection of one mask value
    is an uninterpreted increasing enumeration sel(0..cnt-1) of its True
    positions; the same mask (same content) always gives the same enumeration."""
    mc = st.heap[mask.cell]
    key = ("sel", id(mc), None if mask.imap is None else id(mask.imap))
    tab = ex.__dict__.setdefault("masks", {})
    if key not in tab:
        nme = ex.unm("sel")
        sel = z3.Function(nme, z3.IntSort(), z3.IntSort())
        inv = z3.Function(nme + ".inv", z3.IntSort(), z3.IntSort())
        cnt = z3.Int(nme + ".cnt")
        g = getter(st, mask)
        n = Z(mask.shape[0])
        i, j = z3.Ints("i!m j!m")
        ex.axiom(z3.And(cnt >= 0, cnt <= n))
        ex.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < cnt), z3.And(sel(i) >= 0, sel(i) < n, Z(g((sel(i),))), inv(sel(i)) == i)), patterns=[sel(i)]))
        gi = Z(g((i,)))
        ex.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, gi), z3.And(inv(i) >= 0, inv(i) < cnt, sel(inv(i)) == i)), patterns=[inv(i)]))
        ex.axiom(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < cnt), sel(i) < sel(j)), patterns=[z3.MultiPattern(sel(i), sel(j))]))
        tab[key] = (sel, inv, cnt, mc, mask.imap, lambda i, g=g: Z(g((i,))), n)
    sel, inv, cnt = tab[key][:3]
    if key not in st.ghost.get("masks", ()):
        st.ghost["masks"] = st.ghost.get("masks", ()) + (key,)
    e = dim_eq(ex, st, b.shape[0], mask.shape[0])
    if e is not True:
        ex.oblige(st, "shape", "mask", Z(b.shape[0]) == Z(mask.shape[0]), ex.loc(node, st))
    bg = getter(st, b)
    return ex.new_arr(st, Content((cnt,), st.heap[b.cell].kind, lambda v: bg((sel(Z(v[0])),)), tag=("sel", sel, inv, cnt)))


def mask_prefix(ex, st_key, g, n):
    """CB(i): number of True among the first i elements; the facts of lemma:selection"""
    sel, inv, cnt = ex.masks[st_key][:3]
    tab = ex.__dict__.setdefault("prefixes", {})
    if st_key not in tab:
        CB = z3.Function(ex.unm("CB"), z3.IntSort(), z3.IntSort())
        for f in selection_facts(CB, sel, inv, cnt, g, n):
            ex.axiom(f)
        tab[st_key] = CB
    return tab[st_key]


def selection_facts(CB, sel, inv, cnt, g, n):
    i = z3.Int("i!cb")
    return [CB(0) == 0,
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), CB(i + 1) == CB(i) + z3.If(g(i), 1, 0)), patterns=[CB(i + 1)]),
            CB(n) == cnt,
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= n), z3.And(0 <= CB(i), CB(i) <= cnt)), patterns=[CB(i)]),
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, g(i)), z3.And(sel(CB(i)) == i, CB(i) < cnt)), patterns=[CB(i)])]


def mutable_here(ex, b):
    """containers from outside a loop with invariants are not changed in it (only
    the keys that the loop havocs)"""
    if len(ex.writes) > getattr(b, "depth", 0):
        raise Unsupported("python container changed in a loop")


def setitem(ex, b, idx, v, st, node):
    if isinstance(b, E.MaybeDef):
        b = b.val
    if isinstance(b, E.PyDict):
        k = idx[0]
        if isinstance(k, str):
            if k not in b.loopvar:
                mutable_here(ex, b)
            b[k] = v
            return
        raise Unsupported("dict store")
    if isinstance(b, E.Opaque):
        return
    if isinstance(b, E.StateObj) and hasattr(b, "setitem_model"):
        return b.setitem_model(ex, idx, v, st, node)
    if isinstance(b, list):
        i = idx[0]
        if isinstance(i, int):
            mutable_here(ex, b)
            b[i] = v
            return
        raise Unsupported("list store")
    if not isinstance(b, Arr):
        raise Unsupported(f"store into {b!r}")
    idx = flatten_tuple_index(idx)
    ct = st.heap[b.cell]
    kind = ct.kind
    if len(idx) == 1 and isb(idx[0]):
        # one truth value: all elements or none
        c, g = idx[0], getter(st, b)
        if isinstance(v, Arr):
            raise Unsupported("store under a scalar condition")
        w = cast(v, kind)
        if b.ndim == 0:
            ex.mark_write(b.cell)
            old = ct.get
            bi = b.imap(()) if b.imap else ()
            st.heap[b.cell] = Content(ct.shape, kind, lambda j: ITE(AND(c, *[eqi(x, y) for x, y in zip(j, bi)]), w, old(j)))
            return
        nv = ex.new_arr(st, Content(b.shape, kind, lambda j: ITE(c, w, g(j))))
        return setitem(ex, b, (slice(None),) * b.ndim, nv, st, node)
    ex.mark_write(b.cell)
    if any(isinstance(i, Arr) for i in idx):
        return fancy_set(ex, b, idx, v, st, node)
    view = None
    idx2 = expand_ellipsis(idx, b.ndim)
    if all(is_int(i) for i in idx2):
        ii = tuple(norm_index(ex, st, i, b.shape[k], node) for k, i in enumerate(idx2))
        bi = b.imap(ii) if b.imap else ii
        if isinstance(v, Arr):
            if v.ndim == 0:
                v = read(st, v, ())
            else:
                raise Unsupported("array stored in an element")
        v = cast(v, kind)
        old = ct.get

        def get(j, bi=bi, v=v, old=old):
            c = AND(*[eqi(x, y) for x, y in zip(j, bi)])
            if isinstance(c, bool):
                return v if c else old(j)
            return ITE(c, v, old(j))

        st.heap[b.cell] = Content(ct.shape, kind, get)
        return
    # slice store
    tgt = getitem(ex, b, idx, st, node)
    if isinstance(v, (tuple, list)):
        raise Unsupported("sequence stored in a slice")
    if isinstance(v, Arr):
        bcast_to_check(ex, st, v.shape, tgt.shape, node)
        vg = bget(getter(st, v), v.shape, len(tgt.shape))
    else:
        sv = cast(v, kind)
        vg = lambda j: sv
    # need the inverse of the view map: supported when every view dim maps to a base dim by offset
    inv = view_inverse(ex, b, idx2, st, node)
    old = ct.get

    def get(j, inv=inv, vg=vg, old=old):
        ok, vidx = inv(j)
        if isinstance(ok, bool):
            return cast(vg(vidx), kind) if ok else old(j)
        return ITE(ok, cast(vg(vidx), kind), old(j))

    st.heap[b.cell] = Content(ct.shape, kind, get)


def eqi(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    x, y = Z(x), Z(y)
    if x.eq(y):
        return True
    if z3.is_int_value(x) and z3.is_int_value(y):
        return False
    return x == y


def bcast_to_check(ex, st, a, b, node):
    if len(a) > len(b):
        # leading ones may be dropped
        extra = a[: len(a) - len(b)]
        if not all(one(x) for x in extra):
            raise Unsupported("store of a larger array")
        a = a[len(extra):]
    for x, y in zip(a, b[len(b) - len(a):]):
        if one(x):
            continue
        e = dim_eq(ex, st, x, y)
        if e is True:
            continue
        ex.oblige(st, "shape", "store", Z(x) == Z(y), ex.loc(node, st) if node is not None else "?")


def view_inverse(ex, b, idx, st, node):
    """inverse of b[idx] as a map from base index j to (selected?, view index)"""
    if b.imap is not None:
        raise_if = getattr(b, "inv", None)
    # compose: base view map must itself be invertible; only direct arrays and
    # single-level offset views are supported
    parts = []
    d = 0
    pos = 0
    for i in idx:
        if i is None:
            pos += 1
            continue
        if isinstance(i, slice):
            ns = norm_slice(ex, st, i, b.shape[d], node)
            if ns is None:
                raise Unsupported("reversed slice store")
            parts.append(("s", ns[0], ns[1], pos))
            pos += 1
        else:
            parts.append(("i", norm_index(ex, st, i, b.shape[d], node), None, None))
        d += 1
    npos = pos
    if b.imap is None:

        def inv(j):
            cond = []
            v = [0] * npos
            for k, p in enumerate(parts):
                if p[0] == "i":
                    cond.append(eqi(j[k], p[1]))
                else:
                    cond.append(AND(ge(j[k], p[1]), lt(j[k], ADD(p[1], p[2]))))
                    v[p[3]] = SUB(j[k], p[1])
            return AND(*cond), tuple(v)

        return inv
    # a view of a view: probe the base map for an offset structure
    probe = tuple(z3.Int(f"vprobe{k}") for k in range(b.ndim))
    m = b.imap(probe)
    loc = []
    for t in m:
        t = Z(t)
        hit = None
        for k, pv in enumerate(probe):
            off = z3.simplify(t - pv)
            if not mentions(off, probe):
                hit = (k, off)
        if hit is None and mentions(t, probe):
            raise Unsupported("store through a non-offset view")
        loc.append(hit if hit else ("c", t))
    seen = [h[0] for h in loc if h[0] != "c"]
    if sorted(seen) != list(range(b.ndim)):
        raise Unsupported("store through a view that drops a dimension map")

    def inv(j):
        cond = []
        bj = [None] * b.ndim
        for k, h in enumerate(loc):
            if h[0] == "c":
                cond.append(eqi(j[k], h[1]))
            else:
                bj[h[0]] = SUB(j[k], h[1])
        v = [0] * npos
        for k, p in enumerate(parts):
            cond.append(AND(ge(bj[k], 0), lt(bj[k], b.shape[k])))
            if p[0] == "i":
                cond.append(eqi(bj[k], p[1]))
            else:
                cond.append(AND(ge(bj[k], p[1]), lt(bj[k], ADD(p[1], p[2]))))
                v[p[3]] = SUB(bj[k], p[1])
        return AND(*cond), tuple(v)

    return inv


def mentions(t, vs):
    ids = {v.get_id() for v in vs}
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in ids:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
    return False


def ge(a, b):
    return cmp_scalar("GtE", a, b)


def lt(a, b):
    return cmp_scalar("Lt", a, b)


def fancy_set(ex, b, idx, v, st, node):
    ct = st.heap[b.cell]
    if len(idx) == 1 and st.heap[idx[0].cell].kind == "b":
        mask = idx[0]
        if mask.ndim != b.ndim:
            raise Unsupported("mask rank")
        mg = getter(st, mask)
        if b.imap is not None:
            if isinstance(v, Arr):
                raise Unsupported("mask store through a view")
            for x, y in zip(mask.shape, b.shape):
                if dim_eq(ex, st, x, y) is not True:
                    ex.oblige(st, "shape", "mask", Z(x) == Z(y), ex.loc(node, st))
            w, bg = cast(v, ct.kind), getter(st, b)
            nv = ex.new_arr(st, Content(b.shape, ct.kind, lambda j: ITE(mg(j), w, bg(j))))
            return setitem(ex, b, (slice(None),) * b.ndim, nv, st, node)
        for x, y in zip(b.shape, mask.shape):
            e = dim_eq(ex, st, x, y)
            if e is not True:
                ex.oblige(st, "shape", "mask", Z(x) == Z(y), ex.loc(node, st))
        old = ct.get
        if isinstance(v, Arr):
            tag = st.heap[v.cell].tag
            raise Unsupported("array stored through a mask")
        sv = cast(v, ct.kind)
        st.heap[b.cell] = Content(ct.shape, ct.kind, lambda j: ITE(mg(j), sv, old(j)))
        return
    if len(idx) == 1 and b.ndim == 1 and b.imap is None:
        # b[ia] = v with an index array: last write wins; requires distinct indices
        ia = idx[0]
        if ia.ndim != 1:
            raise Unsupported("index array rank")
        g = getter(st, ia)
        n = Z(ia.shape[0])
        N = Z(b.shape[0])
        q, q2 = z3.Int(ex.nm("q")), z3.Int(ex.nm("q"))
        ex.oblige(st, "bounds", "fancy-store", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(Z(g((q,))) >= 0, Z(g((q,))) < N))), ex.loc(node, st))
        ex.oblige(st, "distinct", "fancy-store", z3.ForAll([q, q2], z3.Implies(z3.And(0 <= q, q < q2, q2 < n), Z(g((q,))) != Z(g((q2,))))), ex.loc(node, st))
        if isinstance(v, Arr):
            bcast_to_check(ex, st, v.shape, ia.shape, node)
            vg = bget(getter(st, v), v.shape, 1)
        else:
            sv = cast(v, ct.kind)
            vg = lambda j: sv
        # position of j in ia: uninterpreted, characterised by the axiom below
        pname = ex.nm("pos")
        pos = z3.Function(pname, z3.IntSort(), z3.IntSort())
        hit = z3.Function(pname + ".hit", z3.IntSort(), z3.BoolSort())
        j = z3.Int("j!p")
        gq = Z(g((q,)))
        st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(hit(gq), pos(gq) == q)), patterns=[gq] if not z3.is_var(gq) and gq.num_args() else []))
        st.assume(z3.ForAll([j], z3.Implies(hit(j), z3.And(0 <= pos(j), pos(j) < n, Z(g((pos(j),))) == j)), patterns=[hit(j)]))
        old = ct.get
        kind = ct.kind
        st.heap[b.cell] = Content(ct.shape, kind, lambda i: ITE(hit(Z(i[0])), cast(vg((pos(Z(i[0])),)), kind), old(i)), tag=("scatter", pos, hit))
        return
    raise Unsupported("fancy store")


# ---------------------------------------------------------------- functions
def shape_arg(ex, st, s):
    if isinstance(s, Arr) and isinstance(s.shape[0], int):
        return tuple(as_int(read(st, s, (i,))) for i in range(s.shape[0]))
    if isinstance(s, (tuple, list)):
        return tuple(as_int(x) for x in s)
    return (as_int(s),)


def dtype_kind(d, default="f"):
    if d is None:
        return default
    if isinstance(d, DType):
        return d.kind
    if isinstance(d, E.Builtin):
        return {"builtins.int": "i", "builtins.float": "f", "builtins.bool": "b"}.get(d.name, default)
    if isinstance(d, str):
        return {"float64": "f", "int64": "i", "bool": "b", "int": "i", "float": "f"}.get(d, default)
    raise Unsupported("dtype")


def full(ex, st, shape, v, kind):
    v = cast(v, kind)
    return ex.new_arr(st, Content(shape, kind, lambda idx: v))


def fabs(x):
    if isinstance(x, F):
        return F(x.n, z3.If(x.v >= 0, x.v, -x.v))
    x = as_int(x)
    if isinstance(x, int):
        return abs(x)
    return z3.If(x >= 0, x, -x)


def sign(x):
    if isinstance(x, F):
        return F(x.n, z3.If(x.v > 0, z3.RealVal(1), z3.If(x.v < 0, z3.RealVal(-1), z3.RealVal(0))))
    x = Z(as_int(x))
    return z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))


def pymax(a, b):
    """builtin max(a, b): b if b > a else a"""
    return ITE(cmp_scalar("Gt", b, a), b, a)


def pymin(a, b):
    return ITE(cmp_scalar("Lt", b, a), b, a)


def lift(ex, st, fn, x, node=None):
    if isinstance(x, Arr):
        return elementwise(ex, st, fn, [x], node)
    return fn(x)


def isnan(x):
    if isinstance(x, F):
        return x.n
    return False


def opaque_call(ex, tag, args, kw, st, node):
    for a in list(args) + list(kw.values()):
        if isinstance(a, Arr):
            # an unknown callee may write its arguments
            ct = st.heap[a.cell]
            ex.mark_write(a.cell)
            st.heap[a.cell] = fresh_content("opq", ct.shape, ct.kind, name=ex.nm("opq"))
    return E.Opaque(tag + "()")


def seq_to_arr(ex, st, v):
    """list/tuple of numbers (or an array) -> array"""
    if isinstance(v, Arr):
        return v
    if isinstance(v, (tuple, list)) and all(is_num(x) for x in v):
        kinds = [kind_of(x) for x in v]
        k = "f" if "f" in kinds else (kinds[0] if kinds else "f")
        return ex.new_arr(st, E.const_content([cast(x, k) for x in v], k))
    if is_num(v):
        k = kind_of(v)
        return ex.new_arr(st, Content((), k, lambda idx: v))
    raise Unsupported("array from nested sequence")


def call(ex, name, args, kw, st, node):
    name = canon(name)
    f = TABLE.get(name)
    if f is not None:
        return f(ex, st, node, *args, **kw)
    if name.startswith("builtins.") and name[9:] in ("ValueError", "TypeError", "RuntimeError", "NameError"):
        return E.Opaque(name)
    raise Unsupported(f"call of {name}")


TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


@reg("importlib.import_module")
def _import_module(ex, st, node, name):
    m = ex.repo.dotted(name) if isinstance(name, str) else None
    if m is None:
        raise Unsupported(f"import_module({name!r})")
    return m


@reg("builtins.getattr")
def _getattr(ex, st, node, obj, name, *default):
    if not isinstance(name, str) or default:
        raise Unsupported("getattr")
    return attribute(ex, obj, name, st, node)


@reg("np.isnan", "math.isnan")
def _isnan(ex, st, node, x):
    return lift(ex, st, isnan, x, node)


@reg("np.isfinite")
def _isfinite(ex, st, node, x):
    return lift(ex, st, lambda y: NOT(isnan(y)), x, node)


@reg("np.abs", "np.absolute", "builtins.abs", "np.fabs")
def _abs(ex, st, node, x):
    return lift(ex, st, fabs, x, node)


@reg("np.sign")
def _sign(ex, st, node, x):
    return lift(ex, st, sign, x, node)


@reg("np.sqrt", "math.sqrt")
def _sqrt(ex, st, node, x):
    return lift(ex, st, lambda y: fsqrt(ex, as_f(y)), x, node)


@reg("builtins.max")
def _max(ex, st, node, *xs):
    if len(xs) == 1 and isinstance(xs[0], Arr):
        return _red_extreme(ex, st, xs[0], node, True)
    if len(xs) == 1 and isinstance(xs[0], (tuple, list)):
        xs = xs[0]
    r = xs[0]
    for y in xs[1:]:
        r = pymax(num(r), num(y))
    return r


@reg("builtins.min")
def _min(ex, st, node, *xs):
    if len(xs) == 1 and isinstance(xs[0], Arr):
        return _red_extreme(ex, st, xs[0], node, False)
    if len(xs) == 1 and isinstance(xs[0], (tuple, list)):
        xs = xs[0]
    r = xs[0]
    for y in xs[1:]:
        r = pymin(num(r), num(y))
    return r


def fmax2(a, b):
    if isinstance(a, F) or isinstance(b, F):
        a, b = as_f(a), as_f(b)
        return F(OR(a.n, b.n), z3.If(a.v >= b.v, a.v, b.v))
    return pymax(a, b)


def fmin2(a, b):
    if isinstance(a, F) or isinstance(b, F):
        a, b = as_f(a), as_f(b)
        return F(OR(a.n, b.n), z3.If(a.v <= b.v, a.v, b.v))
    return pymin(a, b)


@reg("np.maximum")
def _npmax2(ex, st, node, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        return elementwise(ex, st, fmax2, [a, b], node)
    return fmax2(num(a), num(b))


@reg("np.minimum")
def _npmin2(ex, st, node, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        return elementwise(ex, st, fmin2, [a, b], node)
    return fmin2(num(a), num(b))


def _red_extreme(ex, st, a, node, up):
    if not isinstance(a, Arr):
        return a
    if a.ndim != 1:
        raise Unsupported("max of nd array")
    g = getter(st, a)
    kind = st.heap[a.cell].kind
    n = Z(a.shape[0])
    ex.oblige(st, "bounds", "nonempty-reduction", n > 0, ex.loc(node, st))
    if kind != "i":
        raise Unsupported("max of a float array")
    m = z3.Int(ex.nm("mx"))
    w = z3.Int(ex.nm("mxi"))
    q = z3.Int("q!mx")
    st.assume(z3.And(w >= 0, w < n, Z(g((w,))) == m))
    gq = Z(g((q,)))
    st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), gq <= m if up else gq >= m)))
    return m


@reg("np.max", "np.amax")
def _npmax(ex, st, node, a):
    return _red_extreme(ex, st, a, node, True)


@reg("np.min", "np.amin")
def _npmin(ex, st, node, a):
    return _red_extreme(ex, st, a, node, False)


@reg("builtins.len")
def _len(ex, st, node, x):
    if isinstance(x, (tuple, list, str, E.PyDict)):
        return len(x)
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise Unsupported("len of scalar")
        return x.shape[0]
    raise Unsupported("len")


@reg("np.shape")
def _shape(ex, st, node, x):
    if isinstance(x, Arr):
        return tuple(x.shape)
    if isinstance(x, (F, int, float, bool)) or z3.is_expr(x):
        return ()
    raise Unsupported("np.shape")


@reg("np.ndim")
def _ndim(ex, st, node, x):
    return len(_shape(ex, st, node, x))


@reg("builtins.range", "nb.prange", "numba.prange")
def _range(ex, st, node, *a):
    a = [as_int(x) for x in a]
    if len(a) == 1:
        return E.RangeV(0, a[0], 1)
    if len(a) == 2:
        return E.RangeV(a[0], a[1], 1)
    return E.RangeV(*a)


@reg("builtins.float", "np.float64")
def _float(ex, st, node, x):
    if isinstance(x, Arr):
        raise Unsupported("float(array)")
    return as_f(x)


@reg("builtins.int", "np.int64", "np.int_")
def _int(ex, st, node, x):
    if is_int(x) or isb(x):
        return as_int(x)
    if isinstance(x, F):
        if hasattr(x, "asint"):
            return x.asint
        # truncation toward zero of a non-NaN real
        ex.oblige(st, "defined", "int-of-nan", NOT(x.n), ex.loc(node, st))
        i = z3.ToInt(x.v)
        return z3.If(z3.Or(x.v >= 0, z3.ToReal(i) == x.v), i, i + 1)
    raise Unsupported("int()")


@reg("builtins.bool")
def _bool(ex, st, node, x):
    return ex.truth(x, st)


@reg("builtins.tuple")
def _tuple(ex, st, node, x=()):
    if isinstance(x, (tuple, list)):
        return tuple(x)
    if isinstance(x, Arr) and isinstance(x.shape[0], int):
        return tuple(ex.getitem(x, (i,), st, node) for i in range(x.shape[0]))
    if isinstance(x, E.Opaque):
        return x
    raise Unsupported("tuple()")


@reg("builtins.list")
def _list(ex, st, node, x=()):
    return list(_tuple(ex, st, node, x))


@reg("builtins.dict")
def _dict(ex, st, node, *a, **kw):
    d = E.PyDict()
    d.depth = len(ex.writes)
    if a:
        if not isinstance(a[0], E.PyDict):
            raise Unsupported("dict()")
        d.update(a[0])
    d.update(kw)
    return d


@reg("builtins.zip")
def _zip(ex, st, node, *xs):
    ls = []
    for x in xs:
        it = ex.iter_items(x, st)
        if it is None:
            raise Unsupported("zip of symbolic sequence")
        ls.append(it)
    return tuple(zip(*ls))


@reg("builtins.enumerate")
def _enum(ex, st, node, x):
    it = ex.iter_items(x, st)
    if it is None:
        raise Unsupported("enumerate of symbolic sequence")
    return tuple(enumerate(it))


@reg("builtins.reversed")
def _rev(ex, st, node, x):
    it = ex.iter_items(x, st)
    if it is not None:
        return tuple(reversed(it))
    if isinstance(x, E.RangeV) and x.step == 1:
        return E.RangeV(SUB(x.hi, 1), SUB(x.lo, 1), -1)
    raise Unsupported("reversed")


@reg("builtins.print")
def _print(ex, st, node, *a, **kw):
    return None


@reg("builtins.all")
def _all(ex, st, node, x):
    if isinstance(x, (tuple, list)):
        return AND(*[ex.truth(y, st) for y in x])
    if isinstance(x, Arr):
        return _npall(ex, st, node, x)
    raise Unsupported("all")


@reg("builtins.any")
def _any(ex, st, node, x):
    if isinstance(x, (tuple, list)):
        return OR(*[ex.truth(y, st) for y in x])
    if isinstance(x, Arr):
        return _npany(ex, st, node, x)
    raise Unsupported("any")


def _quant(ex, st, x):
    q = [z3.Int(ex.nm("q")) for _ in x.shape]
    rng = z3.And(*[z3.And(i >= 0, i < Z(s)) for i, s in zip(q, x.shape)])
    b = Z(ex.truth(read(st, x, tuple(q)), st))
    if len(q) == 1:
        rng, b = shift_var(q[0], [rng, b])
    return q, rng, b


def shift_var(q, fs):
    """fs with the integer variable q replaced by q - t, where q + t is how q is used
    as an index: the same facts, quantified over the index itself"""
    cnt, seen = {}, set()
    stack = [f for f in fs if z3.is_expr(f)]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for a in t.children():
                    if z3.is_int(a) and not a.eq(q):
                        u = z3.simplify(a - q)
                        if not z3.is_int_value(u) and not _mentions(u, q):
                            # up to a numeral
                            u = z3.simplify(u - z3.simplify(z3.substitute(u, *[(v, z3.IntVal(0)) for v in _consts(u)]))) if _consts(u) else u
                            cnt.setdefault(u.get_id(), [0, u])[0] += 1
            stack.extend(t.children())
    if not cnt:
        return fs
    t = max(cnt.values(), key=lambda p: p[0])[1]
    return [_int_simplify(z3.substitute(f, (q, q - t))) if z3.is_expr(f) else f for f in fs]


def _consts(t):
    out, stack = [], [t]
    while stack:
        x = stack.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(x):
            out.append(x)
        else:
            stack.extend(x.children())
    return out


def _mentions(t, q):
    stack = [t]
    while stack:
        x = stack.pop()
        if x.eq(q):
            return True
        stack.extend(x.children())
    return False


def _int_simplify(f, memo=None):
    """simplify the integer sub-terms of f"""
    memo = {} if memo is None else memo
    k = f.get_id()
    if k in memo:
        return memo[k][0]
    if z3.is_int(f) and not z3.is_quantifier(f):
        r = z3.simplify(f)
    elif z3.is_app(f) and f.num_args():
        ch = f.children()
        new = [_int_simplify(c, memo) for c in ch]
        r = f.decl()(*new) if any(not a.eq(b) for a, b in zip(ch, new)) else f
    else:
        r = f
    memo[k] = (r, f)
    return r


@reg("np.all")
def _npall(ex, st, node, x):
    if not isinstance(x, Arr):
        return ex.truth(x, st)
    q, rng, b = _quant(ex, st, x)
    return z3.ForAll(q, z3.Implies(rng, b))


@reg("np.any")
def _npany(ex, st, node, x):
    if not isinstance(x, Arr):
        return ex.truth(x, st)
    q, rng, b = _quant(ex, st, x)
    return z3.Exists(q, z3.And(rng, b))


@reg("builtins.sum")
def _pysum(ex, st, node, x):
    if isinstance(x, (tuple, list)):
        r = 0
        for y in x:
            r = scalar_op(ex, "Add", r, y, st, node)
        return r
    if isinstance(x, Arr):
        return _npsum(ex, st, node, x)
    raise Unsupported("sum")


@reg("builtins.isinstance")
def _isinstance(ex, st, node, x, t):
    ts = t if isinstance(t, (tuple, list)) else (t,)
    res = False
    for tt in ts:
        nm = tt.name if isinstance(tt, E.Builtin) else getattr(tt, "tag", None)
        if isinstance(tt, DType):
            nm = {"f": "np.float64", "i": "np.int64", "b": "np.bool"}[tt.kind]
        if isinstance(tt, NoneTypeV):
            if x is None:
                res = True
            continue
        if nm is None:
            raise Unsupported("isinstance")
        nm = canon(nm)
        r = None
        if hasattr(x, "isinstance_model"):
            r = x.isinstance_model(nm)
        elif isinstance(x, E.Opaque):
            raise Unsupported("isinstance of an opaque value")
        elif nm == "builtins.str":
            r = isinstance(x, str)
        elif nm == "builtins.int":
            r = is_int(x)
        elif nm == "builtins.float":
            r = isinstance(x, (F, PInf))
        elif nm == "builtins.tuple":
            r = isinstance(x, tuple)
        elif nm == "builtins.list":
            r = isinstance(x, list)
        elif nm == "builtins.dict":
            r = isinstance(x, E.PyDict)
        elif nm == "np.ndarray":
            r = isinstance(x, Arr)
        elif nm == "builtins.bool":
            r = isb(x)
        elif "xr." in nm or "xarray" in nm or "DataArray" in nm:
            r = False
        if r is None:
            raise Unsupported("isinstance " + nm)
        res = res or r
    return res


class NoneTypeV:
    pass


@reg("builtins.type")
def _type(ex, st, node, x):
    if x is None:
        return NoneTypeV()
    raise Unsupported("type()")


@reg("builtins.callable")
def _callable(ex, st, node, x):
    if isinstance(x, (E.RepoFunc, E.OpaqueFn, E.Builtin)):
        return True
    if x is None or is_num(x) or isinstance(x, (str, tuple, list, Arr, E.PyDict)):
        return False
    raise Unsupported("callable")


@reg("builtins.hasattr")
def _hasattr(ex, st, node, x, a):
    if hasattr(x, "hasattr_model"):
        return x.hasattr_model(a)
    if isinstance(x, Arr):
        return a in ("shape", "ndim", "size", "dtype", "T", "data")
    if is_num(x) or x is None or isinstance(x, (tuple, list, str)):
        return False
    raise Unsupported("hasattr")


@reg("np.isscalar")
def _isscalar(ex, st, node, x):
    if is_num(x) or isinstance(x, str):
        return True
    if isinstance(x, (Arr, tuple, list, E.PyDict)) or x is None:
        return False
    if hasattr(x, "isinstance_model"):
        return False
    raise Unsupported("isscalar")


@reg("np.finfo")
def _finfo(ex, st, node, d):
    return FInfo()


@reg("np.iinfo")
def _iinfo(ex, st, node, d):
    return FInfo(2**63 - 1)


@reg("np.empty")
def _empty(ex, st, node, shape, dtype=None):
    s = shape_arg(ex, st, shape)
    return ex.fresh_arr(st, "empty", s, dtype_kind(dtype))


@reg("np.zeros")
def _zeros(ex, st, node, shape, dtype=None):
    k = dtype_kind(dtype)
    return full(ex, st, shape_arg(ex, st, shape), False if k == "b" else 0, k)


@reg("np.ones")
def _ones(ex, st, node, shape, dtype=None):
    k = dtype_kind(dtype)
    return full(ex, st, shape_arg(ex, st, shape), True if k == "b" else 1, k)


@reg("np.full")
def _full(ex, st, node, shape, v, dtype=None):
    k = dtype_kind(dtype, kind_of(v) if not isinstance(v, Arr) else "f")
    if isinstance(v, Arr):
        if v.ndim == 0:
            v = read(st, v, ())
        else:
            raise Unsupported("full of an array")
    return full(ex, st, shape_arg(ex, st, shape), v, k)


@reg("np.full_like", "np.zeros_like", "np.empty_like", "np.ones_like")
def _full_like(ex, st, node, a, v=None, dtype=None):
    nm = ast.unparse(node.func)
    k = dtype_kind(dtype, st.heap[a.cell].kind)
    if nm.endswith("empty_like"):
        return ex.fresh_arr(st, "empty", a.shape, k)
    if nm.endswith("zeros_like"):
        v = False if k == "b" else 0
    if nm.endswith("ones_like"):
        v = True if k == "b" else 1
    return full(ex, st, a.shape, v, k)


@reg("np.arange")
def _arange(ex, st, node, *a, dtype=None):
    a = [as_int(x) for x in a]
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) > 2:
        raise Unsupported("arange step")
    n = SUB(hi, lo)
    if isinstance(n, int):
        n = max(n, 0)
    elif not ex.entails(st, n >= 0):
        n = z3.If(n < 0, z3.IntVal(0), n)
    return ex.new_arr(st, Content((n,), "i", lambda idx: ADD(idx[0], lo)))


_II = z3.IntSort()
UFLAT = z3.Function("flat!", _II, _II, _II, _II)
UDIV = z3.Function("fdiv!", _II, _II, _II)
UMOD = z3.Function("fmod!", _II, _II, _II)


def flat_axioms(ex):
    if getattr(ex, "_flatax", False):
        return
    ex._flatax = True
    q, r, s = z3.Ints("q!f r!f s!f")
    x = UFLAT(q, r, s)
    ex.axiom(z3.ForAll([q, r, s], z3.Implies(z3.And(0 <= r, r < s), z3.And(UDIV(x, s) == q, UMOD(x, s) == r)), patterns=[x]))
    d, m = UDIV(q, s), UMOD(q, s)
    for pat in (d, m):
        ex.axiom(z3.ForAll([q, s], z3.Implies(s > 0, z3.And(0 <= m, m < s, z3.Implies(q >= 0, d >= 0), UFLAT(d, m, s) == q)), patterns=[pat]))


def flat_range(ex, n, s):
    """index ranges: q < n and r < s give flat(q, r, s) < n*s"""
    if isinstance(n, int) and n == 1 or isinstance(n, int) and isinstance(s, int):
        return
    flat_axioms(ex)
    tab = ex.__dict__.setdefault("_flatr", {})
    key = (Z(n).get_id(), Z(s).get_id())
    if key in tab:
        return
    n, s = Z(n), Z(s)
    tab[key] = (n, s)
    q, r = z3.Ints("q!f r!f")
    x = UFLAT(q, r, s)
    ex.axiom(z3.ForAll([q, r], z3.Implies(z3.And(0 <= q, q < n, 0 <= r, r < s), z3.And(0 <= x, x < n * s)), patterns=[x]))
    x = UDIV(q, s)
    ex.axiom(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n * s), z3.And(0 <= x, x < n)), patterns=[x]))


def uflat(ex, q, r, s):
    """q*s + r"""
    if isinstance(q, int) and q == 0:
        return r
    if isinstance(q, int) or isinstance(s, int):
        return ADD(MUL(q, s), r)
    flat_axioms(ex)
    return UFLAT(Z(q), Z(r), Z(s))


def udivmod(ex, x, s):
    if isinstance(s, int):
        if isinstance(x, int):
            return x // s, x % s
        return Z(x) / s, Z(x) % s
    flat_axioms(ex)
    return UDIV(Z(x), Z(s)), UMOD(Z(x), Z(s))


def reshape_arr(ex, st, a, shape, node):
    """C-order reshape; supported: identity, flattening and unflattening"""
    shape = list(shape)
    total = 1
    for s in a.shape:
        total = MUL(total, s)
    if any(isinstance(s, int) and s == -1 for s in shape):
        k = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1][0]
        rest = 1
        for i, s in enumerate(shape):
            if i != k:
                rest = MUL(rest, s)
        if one(rest):
            shape[k] = total
        else:
            # match a suffix/prefix of the old shape
            out = infer_dim(ex, st, a.shape, shape, k)
            shape[k] = out
    shape = tuple(shape)
    g = getter(st, a)
    kind = st.heap[a.cell].kind
    # identity / inserting or dropping unit dims
    old = [s for s in a.shape]
    core_old = [(i, s) for i, s in enumerate(old) if not one(s)]
    core_new = [(i, s) for i, s in enumerate(shape) if not one(s)]
    if len(core_old) == len(core_new) and all(dim_eq(ex, st, x[1], y[1]) for x, y in zip(core_old, core_new)):
        def imap(v):
            out = [0] * len(old)
            for (i, _), (j, _) in zip(core_old, core_new):
                out[i] = v[j]
            return tuple(out)
        return Arr(a.cell, shape, (lambda v: a.imap(imap(v))) if a.imap else imap)
    newtot = 1
    for s in shape:
        newtot = MUL(newtot, s)
    if not dim_eq(ex, st, total, newtot):
        ex.oblige(st, "shape", "reshape", Z(total) == Z(newtot), ex.loc(node, st) if node is not None else "?")

    def flat(v, shp):
        r = 0
        for n, (i, s) in enumerate(zip(v, shp)):
            r = uflat(ex, r, i, s) if n else i
        return r

    def unflat(r, shp):
        out = []
        for s in reversed(shp[1:]):
            q, m = udivmod(ex, r, s)
            out.append(m)
            r = q
        out.append(r)
        return tuple(reversed(out))

    # blocks of dimensions with equal products, to avoid div/mod where possible
    io = [k for k, x in enumerate(old) if not one(x)]
    jn = [k for k, x in enumerate(shape) if not one(x)]

    def peq(x, y):
        if dim_eq(ex, st, x, y):
            return True
        if isinstance(x, int) and isinstance(y, int):
            return False
        d = z3.simplify(Z(x) - Z(y))
        return z3.is_int_value(d) and d.as_long() == 0

    blocks, ip, jp = [], 0, 0
    while ip < len(io) or jp < len(jn):
        hit = None
        if ip < len(io) and jp < len(jn):
            px = 1
            for e in range(ip, len(io)):
                px = MUL(px, old[io[e]])
                if peq(px, shape[jn[jp]]):
                    hit = (e + 1, jp + 1)
                    break
            py = 1
            for e in range(jp, len(jn)):
                if hit:
                    break
                py = MUL(py, shape[jn[e]])
                if peq(py, old[io[ip]]):
                    hit = (ip + 1, e + 1)
        if hit is None:
            hit = (len(io), len(jn))
        blocks.append((io[ip:hit[0]], jn[jp:hit[1]]))
        ip, jp = hit
    for bo, bn in blocks:
        for shp in ([old[k] for k in bo], [shape[k] for k in bn]):
            lead = 1
            for n_, s_ in enumerate(shp):
                if n_:
                    flat_range(ex, lead, s_)
                lead = MUL(lead, s_)

    def imap(v):
        out = [0] * len(old)
        for bo, bn in blocks:
            r = flat(tuple(v[k] for k in bn), [shape[k] for k in bn])
            for k, x in zip(bo, unflat(r, [old[k] for k in bo])):
                out[k] = x
        return tuple(out)

    # a reshape of a C-contiguous array is a view; of a non-contiguous one, a copy.
    # both read the same; writes through the result are modelled as to a copy
    get = lambda v: g(imap(v))
    ct = Content(shape, kind, get, tag=("reshape",))
    return ex.new_arr(st, ct)


def infer_dim(ex, st, old, shape, k):
    rest_new = [s for i, s in enumerate(shape) if i != k]
    rest_old = list(old)
    for s in rest_new:
        for j, o in enumerate(rest_old):
            if dim_eq(ex, st, s, o):
                rest_old.pop(j)
                break
        else:
            if one(s):
                continue
            # product of several old dims?
            done = False
            for lo in range(len(rest_old)):
                p = 1
                for hi in range(lo, len(rest_old)):
                    p = MUL(p, rest_old[hi])
                    if dim_eq(ex, st, s, p) or (not isinstance(p, int) and not isinstance(s, int) and z3.simplify(Z(s) - Z(p)).eq(z3.IntVal(0))):
                        del rest_old[lo: hi + 1]
                        done = True
                        break
                if done:
                    break
            if not done:
                raise Unsupported("reshape -1")
    out = 1
    for o in rest_old:
        out = MUL(out, o)
    return out


@reg("np.reshape")
def _reshape(ex, st, node, a, shape, *rest):
    a = seq_to_arr(ex, st, a)
    return reshape_arr(ex, st, a, shape_arg(ex, st, shape), node)


@reg("np.prod")
def _prod(ex, st, node, x, dtype=None):
    if isinstance(x, (tuple, list)):
        r = 1
        for y in x:
            r = MUL(r, as_int(y))
        return r
    raise Unsupported("prod of an array")


@reg("np.ravel")
def _ravel(ex, st, node, a):
    return reshape_arr(ex, st, a, (-1,), node)


@reg("np.broadcast_to")
def _broadcast_to(ex, st, node, a, shape):
    a = seq_to_arr(ex, st, a)
    shape = shape_arg(ex, st, shape)
    n = len(shape)
    if a.ndim > n:
        ex.oblige(st, "shape", "broadcast_to", False, ex.loc(node, st))
        raise Unsupported("broadcast_to a smaller rank")
    for x, y in zip(a.shape, shape[n - a.ndim:]):
        if one(x):
            continue
        if dim_eq(ex, st, x, y) is not True:
            ex.oblige(st, "shape", "broadcast_to", Z(x) == Z(y), ex.loc(node, st))
    off = n - a.ndim
    ash = a.shape

    def imap(v):
        out = tuple(0 if one(ash[k]) else v[off + k] for k in range(len(ash)))
        return a.imap(out) if a.imap else out

    return Arr(a.cell, shape, imap)


@reg("np.where")
def _where(ex, st, node, c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    if not any(isinstance(x, Arr) for x in (c, a, b)):
        return ITE(ex.truth(c, st), a, b)
    return elementwise(ex, st, lambda x, y, z: ITE(x, y, z), [c, a, b], node)


@reg("np.roll")
def _roll(ex, st, node, a, shift, axis=None):
    shift = as_int(shift)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("roll flat")
        axis = 0
    axis = as_int(axis) % a.ndim
    if not isinstance(shift, int) or abs(shift) != 1:
        raise Unsupported("roll shift")
    g = getter(st, a)
    n = a.shape[axis]

    def get(v):
        v = list(v)
        i = v[axis]
        if shift == 1:
            v[axis] = ITE(eqi(i, 0), SUB(n, 1), SUB(i, 1)) if not isinstance(i, int) else (SUB(n, 1) if i == 0 else i - 1)
        else:
            v[axis] = ITE(eqi(i, SUB(n, 1)), 0, ADD(i, 1))
        return g(tuple(v))

    return ex.new_arr(st, Content(a.shape, st.heap[a.cell].kind, get))


@reg("np.flip")
def _flip(ex, st, node, a, axis=None):
    axes = range(a.ndim) if axis is None else [as_int(axis) % a.ndim]

    def imap(v):
        v = tuple(SUB(SUB(a.shape[k], 1), x) if k in axes else x for k, x in enumerate(v))
        return a.imap(v) if a.imap else v

    return Arr(a.cell, a.shape, imap)


@reg("np.copy")
def _copy(ex, st, node, a):
    return copy_arr(ex, st, a)


def copy_arr(ex, st, a):
    g = getter(st, a)
    return ex.new_arr(st, Content(a.shape, st.heap[a.cell].kind, g))


@reg("np.asarray", "np.array", "np.ascontiguousarray")
def _asarray(ex, st, node, a, dtype=None, **kw):
    isarr = isinstance(a, Arr)
    a = seq_to_arr(ex, st, a)
    if dtype is not None:
        return astype(ex, st, a, dtype_kind(dtype))
    if isarr and ast.unparse(node.func).endswith(".array"):
        return copy_arr(ex, st, a)
    return a


@reg("np.require")
def _require(ex, st, node, a, dtype=None, requirements=None):
    """the array itself, or a copy when its memory layout is not as required: the
    layout is not modelled, a unit states which of the two it is about"""
    k = st.heap[a.cell].kind
    if k == dtype_kind(dtype, k):
        if ex.contract.options.get("require") == "copy":
            return copy_arr(ex, st, a)
        return a
    return astype(ex, st, a, dtype_kind(dtype))


def astype(ex, st, a, k):
    g = getter(st, a)
    k0 = st.heap[a.cell].kind
    if k == "b" and k0 != "b":
        return ex.new_arr(st, Content(a.shape, "b", lambda v: ex.truth(g(v), st)))
    if k == "i" and k0 == "f":
        raise Unsupported("float to int astype")
    return ex.new_arr(st, Content(a.shape, k, lambda v: cast(g(v), k)))


@reg("np.concatenate")
def _concat(ex, st, node, xs, axis=0):
    arrs = [seq_to_arr(ex, st, x) for x in xs]
    axis = as_int(axis)
    nd = arrs[0].ndim
    axis %= nd
    kinds = [st.heap[a.cell].kind for a in arrs]
    kind = "f" if "f" in kinds else "i" if "i" in kinds else "b"
    gs = [getter(st, a) for a in arrs]
    offs = []
    o = 0
    for a in arrs:
        offs.append(o)
        o = ADD(o, a.shape[axis])
    shape = list(arrs[0].shape)
    shape[axis] = o

    def get(v):
        r = None
        for k in range(len(arrs) - 1, -1, -1):
            w = list(v)
            w[axis] = SUB(v[axis], offs[k])
            x = cast(gs[k](tuple(w)), kind)
            r = x if r is None else ITE(lt(v[axis], offs[k + 1]), x, r)
        return r

    tag = None
    if nd == 1:
        pieces = []
        for a, g in zip(arrs, gs):
            tg = st.heap[a.cell].tag if a.imap is None else None
            if isinstance(tg, tuple) and tg[0] == "cat":
                pieces += tg[1]
            else:
                pieces.append((a.shape[0], lambda i, g=g: cast(g((i,)), kind)))
        tag = ("cat", pieces)
    return ex.new_arr(st, Content(tuple(shape), kind, get, tag=tag))


@reg("np.tile")
def _tile(ex, st, node, a, reps):
    if not isinstance(reps, int) or a.ndim != 1:
        raise Unsupported("tile")
    return _concat(ex, st, node, tuple(a for _ in range(reps)))


class XArr(E.StateObj):
    """ASSUMED behaviour of the parts of xarray.DataArray that are used: data (an
    array), dims (names), coords (name -> (dims it spans, what it is)), attrs, name"""

    def __init__(self, data, dims, coords, attrs, name):
        self.fields = E.PyDict(data=data, dims=tuple(dims), coords=E.PyDict(coords), attrs=E.PyDict(attrs), name=name)

    def clone(self, ex=None, st=None, **kw):
        f = self.fields
        x = XArr(f["data"], f["dims"], f["coords"], f["attrs"], f["name"])
        for k, v in kw.items():
            x.fields[k] = v
        return x

    def hasattr_model(self, a):
        if a in ("values", "data", "dims", "coords", "attrs", "name", "shape", "ndim", "size", "dtype"):
            return True
        raise Unsupported("hasattr of a labelled array")

    def isinstance_model(self, nm):
        return "DataArray" in nm

    def getattr_model(self, ex, attr, st):
        f = self.fields
        if attr in ("values", "data"):
            return f["data"]
        if attr in ("dims", "attrs", "name"):
            return f[attr]
        if attr in ("shape", "ndim", "size", "dtype"):
            return attribute(ex, f["data"], attr, st, None)
        if attr in ("isel", "drop_vars", "copy", "get_index"):
            return E.Method(self, attr)
        raise Unsupported("DataArray." + attr)

    def setattr_model(self, ex, attr, v, st):
        f = self.fields
        if attr in ("data", "values") and isinstance(v, Arr):
            if v.ndim != len(f["dims"]):
                raise E.Raises("ValueError")
            f["data"] = v
        elif attr == "name" and (v is None or isinstance(v, str)):
            f["name"] = v
        else:
            raise Unsupported("setting DataArray." + attr)

    def method_model(self, ex, name, args, kw, st, node):
        f = self.fields
        if name == "isel":
            d = args[0] if args else kw
            if len(args) > 1 or (args and kw) or len(d) != 1:
                raise Unsupported("isel")
            (dim, k), = d.items()
            if dim not in f["dims"]:
                raise E.Raises("ValueError")
            ax = f["dims"].index(dim)
            if not is_int(k):
                raise Unsupported("isel")
            data = getter(st, f["data"])
            shape = tuple(s for i, s in enumerate(f["data"].shape) if i != ax)
            ex.oblige(st, "bounds", "isel", AND(ge(k, 0), lt(k, f["data"].shape[ax])), ex.loc(node, st))
            new = ex.new_arr(st, Content(shape, st.heap[f["data"].cell].kind, lambda v: data(tuple(v[:ax]) + (k,) + tuple(v[ax:]))))
            co = {n: ((tuple(q for q in ds if q != dim), ("isel", what, dim)) if dim in ds else (ds, what)) for n, (ds, what) in f["coords"].items()}
            return XArr(new, [q for q in f["dims"] if q != dim], co, f["attrs"], f["name"])
        if name == "drop_vars":
            nm, = args
            if nm not in f["coords"] and kw.get("errors") != "ignore":
                raise E.Raises("ValueError")
            return self.clone(coords=E.PyDict({n: v for n, v in f["coords"].items() if n != nm}))
        if name == "copy":
            return self.clone(data=copy_arr(ex, st, f["data"]))
        if name == "get_index":
            if args[0] not in f["dims"]:
                raise E.Raises("KeyError")
            return XIndex(self, args[0])
        raise Unsupported("DataArray." + name)

    def view_model(self, c):
        return XView(c.view(self.fields["data"]), self.fields)


class XView:
    """a labelled array as contract clauses see it"""

    def __init__(self, data, f):
        self.data, self.dims, self.name = data, f["dims"], f["name"]
        self.coords, self.attrs = dict(f["coords"]), dict(f["attrs"])
        self.shape = data.shape

    def same_labels(self, o):
        return self.dims == o.dims and self.name == o.name and self.attrs == o.attrs and list(self.coords) == list(o.coords) and all(
            a[0] == b[0] and (a[1] is b[1] or (isinstance(a[1], str) and a[1] == b[1])) for a, b in zip(self.coords.values(), o.coords.values()))


class XIndex:
    """the index of a dimension: increasing coordinates, or 0, 1, 2, .."""

    def __init__(self, x, dim):
        self.x, self.dim = x, dim

    def method_model(self, ex, name, args, kw, st, node):
        if name != "searchsorted" or len(args) != 1 or kw:
            raise Unsupported("Index." + name)
        v = as_f(args[0])
        f = self.x.fields
        n = f["data"].shape[f["dims"].index(self.dim)]
        co = f["coords"].get(self.dim)
        what = co[1] if co is not None else None
        if not isinstance(what, ArrV):
            raise Unsupported("searchsorted on an unknown index")
        r, j = z3.Int(ex.nm("found")), z3.Int(ex.nm("j!ss"))
        at = lambda i: as_f(what[i]).v
        st.assume(z3.And(0 <= r, r <= Z(n), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r), at(j) < v.v)),
                         z3.ForAll([j], z3.Implies(z3.And(r <= j, j < Z(n)), at(j) >= v.v))))
        return r


@reg("xarray.full_like")
def _xfull(ex, st, node, x, val, dtype=None):
    if not isinstance(x, XArr):
        raise Unsupported("full_like")
    d = x.fields["data"]
    return x.clone(data=full(ex, st, d.shape, val, st.heap[d.cell].kind))


@reg("np.shares_memory")
def _shares(ex, st, node, a, b):
    return a.cell == b.cell


class Rng:
    """numpy.random.Generator: the numbers drawn are unknown"""

    def method_model(self, ex, name, args, kw, st, node):
        if name in ("normal", "standard_normal", "uniform", "random"):
            size = kw.get("size", args[2] if len(args) > 2 else None)
            if size is None:
                raise Unsupported("random scalar")
            shape = shape_arg(ex, st, size)
            return ex.fresh_arr(st, ex.nm("random"), shape, "f", False)
        raise Unsupported("random." + name)


@reg("np.random.default_rng")
def _rng(ex, st, node, seed=None):
    return Rng()


class OptRes:
    """what scipy.optimize.minimize returns"""

    def __init__(self, x, success):
        self.x, self.success = x, success

    def getattr_model(self, ex, attr, st):
        if attr in ("x", "success"):
            return getattr(self, attr)
        raise Unsupported("OptimizeResult." + attr)


@reg("scipy.optimize.minimize")
def _minimize(ex, st, node, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
    """ASSUMED contract of the optimiser: when it reports success, its solution is a
    vector of as many numbers as x0, at which every component of every inequality
    constraint is at least 0 (the constraint is the code's own function, evaluated
    here symbolically at the solution)"""
    x = ex.fresh_arr(st, ex.nm("optimum"), x0.shape, "f", False)
    ok = z3.Bool(ex.nm("success"))
    cons = constraints if isinstance(constraints, (tuple, list)) else (constraints,)
    for c in cons:
        if not isinstance(c, E.PyDict) or any(isinstance(v, E.Undef) for v in c.values()) or c.get("type") != "ineq" or c.get("fun") is None:
            raise Unsupported("constraints of minimize")
        g = ex.call(c["fun"], [x] + list(c.get("args", ())), {}, st, node)
        if not isinstance(g, Arr) or g.ndim != 1:
            raise Unsupported("constraint function")
        k = z3.Int(ex.nm("k!opt"))
        e = as_f(getter(st, g)((k,)))
        rng, b = shift_var(k, [z3.And(0 <= k, k < Z(g.shape[0])), z3.And(Z(NOT(e.n)), e.v >= 0)])
        st.assume(z3.Implies(ok, z3.ForAll([k], z3.Implies(rng, b))))
    ex.__dict__.setdefault("optimised", []).append(ok)
    return OptRes(x, ok)


@reg("np.repeat")
def _repeat(ex, st, node, a, n, axis=None):
    if is_num(a):
        return full(ex, st, (as_int(n),), a, kind_of(a))
    raise Unsupported("repeat")


def transpose(ex, a, axes, st):
    nd = a.ndim
    axes = tuple(range(nd))[::-1] if axes is None else tuple(as_int(x) % nd for x in axes)

    def imap(v):
        out = [None] * nd
        for j, ax in enumerate(axes):
            out[ax] = v[j]
        return a.imap(tuple(out)) if a.imap else tuple(out)

    return Arr(a.cell, tuple(a.shape[ax] for ax in axes), imap)


@reg("np.transpose")
def _transpose(ex, st, node, a, axes=None):
    return transpose(ex, a, axes, st)


@reg("np.moveaxis")
def _moveaxis(ex, st, node, a, src, dst):
    src, dst = as_int(src) % a.ndim, as_int(dst) % a.ndim
    if not isinstance(src, int):
        raise Unsupported("moveaxis")
    order = [k for k in range(a.ndim) if k != src]
    order.insert(dst, src)
    return transpose(ex, a, tuple(order), st)


@reg("np.mod")
def _mod(ex, st, node, a, b):
    return binop(ex, "Mod", a, b, st, node)


@reg("np.ndindex")
def _ndindex(ex, st, node, *s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = s[0]
    return E.NdIndex(tuple(s))


@reg("np.ravel_multi_index")
def _rmi(ex, st, node, idx, dims):
    r = 0
    for i, n in zip(idx, dims):
        ex.oblige(st, "bounds", "ravel_multi_index", AND(ge(i, 0), lt(i, n)), ex.loc(node, st))
        r = ADD(MUL(r, n), i)
    return r


@reg("np.searchsorted")
def _searchsorted(ex, st, node, a, x):
    """i = searchsorted(a, x) on a strictly increasing NaN-free a:
    all a[:i] < x <= all a[i:].  Sortedness is an obligation."""
    if a.ndim != 1 or not is_num(x):
        raise Unsupported("searchsorted")
    g = getter(st, a)
    n = Z(a.shape[0])
    x = as_f(x)
    q = z3.Int("q!ss")
    sortd = ex.contract.options.get("sorted_obl", True)
    if sortd and not ex.quiet:
        q1 = z3.Int(ex.nm("qs"))
        e1, e2 = as_f(g((q1,))), as_f(g((q1 + 1,)))
        ex.oblige(st, "pre", "searchsorted.sorted",
                  z3.ForAll([q1], z3.Implies(z3.And(0 <= q1, q1 + 1 < n), Z(AND(NOT(e1.n), NOT(e2.n), e1.v <= e2.v)))), ex.loc(node, st))
        ex.oblige(st, "pre", "searchsorted.notnan", NOT(x.n), ex.loc(node, st))
    i = z3.Int(ex.nm("ss"))
    st.assume(z3.And(i >= 0, i <= n))
    # neighbours (enough for a sorted array)
    st.assume(z3.Implies(i > 0, as_f(g((i - 1,))).v < x.v))
    st.assume(z3.Implies(i < n, x.v <= as_f(g((i,))).v))
    gq = as_f(g((q,))).v
    st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < i), gq < x.v)))
    st.assume(z3.ForAll([q], z3.Implies(z3.And(i <= q, q < n), x.v <= gq)))
    return i


@reg("np.nonzero")
def _nonzero(ex, st, node, a):
    if a.ndim != 1 or st.heap[a.cell].kind != "b":
        raise Unsupported("nonzero")
    idx = _arange(ex, st, node, a.shape[0])
    return (mask_select(ex, idx, a, st, node),)


@reg("np.take_along_axis")
def _take_along(ex, st, node, a, idx, axis=-1):
    ax = axis % a.ndim if isinstance(axis, int) else None
    if ax is None or idx.ndim != a.ndim:
        raise Unsupported("take_along_axis")
    for d in range(a.ndim):
        if d != ax and dim_eq(ex, st, a.shape[d], idx.shape[d]) is not True:
            ex.oblige(st, "shape", "take_along_axis", Z(a.shape[d]) == Z(idx.shape[d]), ex.loc(node, st))
    g, gi = getter(st, a), getter(st, idx)
    n = a.shape[ax]
    q = [z3.Int(ex.nm("q")) for _ in idx.shape]
    rng = AND(*[z3.And(x >= 0, x < Z(m)) for x, m in zip(q, idx.shape)])
    v = Z(gi(tuple(q)))
    ex.oblige(st, "bounds", "take_along_axis", z3.ForAll(q, z3.Implies(rng, z3.And(v >= -Z(n), v < Z(n)))), ex.loc(node, st))

    def get(j):
        i = Z(gi(tuple(j)))
        i = z3.If(i < 0, i + Z(n), i)
        return g(tuple(j[:ax]) + (i,) + tuple(j[ax + 1:]))

    return ex.new_arr(st, Content(idx.shape, st.heap[a.cell].kind, get))


@reg("np.linspace")
def _linspace(ex, st, node, a, b, num=50, dtype=None):
    a, b = as_f(a), as_f(b)
    n = as_int(num)
    if not isinstance(n, int) and not ex.entails(st, n >= 0):
        ex.oblige(st, "shape", "linspace", n >= 0, ex.loc(node, st))
    nan = OR(a.n, b.n)
    return ex.new_arr(st, Content((n,), "f", lambda v: F(nan, linspace_at(a.v, b.v, n, v[0]))))


def linspace_at(a, b, n, i):
    """a + i (b - a) / (n - 1)"""
    if isinstance(n, int) and n <= 1:
        return a
    h = (b - a) / z3.ToReal(Z(n) - 1)
    v = a + z3.ToReal(Z(i)) * h
    return v if isinstance(n, int) else z3.If(Z(n) <= 1, a, v)


@reg("np.ceil")
def _ceil(ex, st, node, x):
    x = as_f(x)
    i = z3.ToInt(x.v)
    c = z3.If(z3.ToReal(i) == x.v, i, i + 1)
    r = F(x.n, z3.ToReal(c))
    return CeilF(x.n, z3.ToReal(c), c)


class CeilF(F):
    __slots__ = ("asint",)

    def __init__(self, n, v, i):
        super().__init__(n, v)
        self.asint = i


def new_sum(ex, kind, term, n, key=None):
    """partial sums of term(k), k = 0..n-1: SUM(0)=0, SUM(k+1)=SUM(k)+term(k), and
    extensionality: sums of pointwise equal terms are equal"""
    lst = ex.__dict__.setdefault("sumlist", [])
    s = z3.Function(ex.unm("SUM"), z3.IntSort(), z3.RealSort() if kind == "f" else z3.IntSort())
    k = z3.Int("k!s")
    ex.axiom(s(0) == 0)
    ex.axiom(z3.ForAll([k], z3.Implies(k >= 0, s(k + 1) == s(k) + term(k)), patterns=[s(k + 1)]))
    n = Z(n)
    for s2, t2, n2, k2, n0 in ex.__dict__.get("sumfams", ()):
        if k2 == kind:
            q = z3.Int("q!s")
            ex.axiom(z3.ForAll([q], z3.Implies(z3.And(n == n2, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), term(k) == t2(q, k)))), s(n) == s2(q, n2)), patterns=[s2(q, n2)]), [s(n)])
    for s2, t2, n2, k2 in lst:
        if k2 == kind:
            ex.axiom(z3.Implies(z3.And(n == n2, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), term(k) == t2(k)))), s(n) == s2(n2)))
    lst.append((s, term, n, kind))
    return s


def new_sum_family(ex, kind, term, n):
    """for every q: the partial sums of term(q, k), k = 0..n-1"""
    s = z3.Function(ex.unm("SUM"), z3.IntSort(), z3.IntSort(), z3.RealSort() if kind == "f" else z3.IntSort())
    q, k = z3.Ints("q!s k!s")
    ex.axiom(z3.ForAll([q], s(q, 0) == 0, patterns=[s(q, 0)]))
    ex.axiom(z3.ForAll([q, k], z3.Implies(k >= 0, s(q, k + 1) == s(q, k) + term(q, k)), patterns=[s(q, k + 1)]))
    ex.__dict__.setdefault("sumfams", []).append((s, term, Z(n), kind, None))
    return s


def agg_fn(ex, e, idx, tag):
    """AGG(m, j): sum of e[i] over i < m with idx[i] == j; and its NaN flag"""
    tab = ex.__dict__.setdefault("aggs", {})
    key = (id(e.content), id(idx.content), tag)
    if key in tab:
        return tab[key][:2]
    nm = ex.unm("AGG")
    S = z3.Function(nm, z3.IntSort(), z3.IntSort(), z3.RealSort())
    N = z3.Function(nm + ".nan", z3.IntSort(), z3.IntSort(), z3.BoolSort())
    m, j = z3.Ints("m!a j!a")
    x = as_f(e[m])
    hit = Z(idx[m]) == j
    ex.axiom(z3.ForAll([j], z3.And(S(0, j) == 0, z3.Not(N(0, j))), patterns=[S(0, j)]))
    ex.axiom(z3.ForAll([m, j], z3.Implies(m >= 0, z3.And(S(m + 1, j) == S(m, j) + z3.If(hit, x.v, z3.RealVal(0)),
                                                       N(m + 1, j) == z3.Or(N(m, j), z3.And(hit, Z(x.n))))), patterns=[S(m + 1, j)]))
    # a sum that is not a number has a term that is not (lemma:sums)
    W = z3.Function(nm + ".bad", z3.IntSort(), z3.IntSort(), z3.IntSort())
    y = as_f(e[W(m, j)])
    if not (isinstance(y.n, bool) and not y.n):
        ex.axiom(z3.ForAll([m, j], z3.Implies(z3.And(m >= 0, N(m, j)), z3.And(0 <= W(m, j), W(m, j) < m, Z(y.n), Z(idx[W(m, j)]) == j)), patterns=[N(m, j)]))
    else:
        ex.axiom(z3.ForAll([m, j], z3.Implies(m >= 0, z3.Not(N(m, j))), patterns=[N(m, j)]))
    tab[key] = (S, N, e, idx)
    return S, N


def sum_term(ex, st, x, skipnan=False):
    ct = st.heap[x.cell]
    key = (id(ct), id(x.imap) if x.imap else None, skipnan)
    tab = ex.__dict__.setdefault("sums", {})
    if key not in tab:
        kind = ct.kind
        g = getter(st, x)
        if kind == "f":
            def term(k):
                e = as_f(g((k,)))
                return z3.If(Z(e.n), z3.RealVal(0), e.v) if skipnan and not (isinstance(e.n, bool) and not e.n) else e.v
        else:
            def term(k):
                return Z(as_int(g((k,))))
        s = new_sum(ex, "f" if kind == "f" else "i", term, x.shape[0])
        tab[key] = (s, ct, x.imap, kind)
    return tab[key]


@reg("np.sum")
def _npsum(ex, st, node, x, axis=None, dtype=None):
    if not isinstance(x, Arr):
        return as_int(x) if isinstance(x, bool) or z3.is_bool(x) else x
    if axis is not None:
        raise Unsupported("np.sum over axes")
    if x.ndim != 1:
        x = reshape_arr(ex, st, x, (-1,), node)
    s, ct, im, kind = sum_term(ex, st, x)
    n = Z(x.shape[0])
    if kind == "f":
        k = z3.Int("k!sn")
        e = as_f(getter(st, x)((k,)))
        if isinstance(e.n, bool) and not e.n:
            return F(False, s(n))
        return F(z3.Exists([k], z3.And(0 <= k, k < n, Z(e.n))), s(n))
    return s(n)


@reg("np.nansum")
def _nansum(ex, st, node, x):
    if not isinstance(x, Arr):
        return x
    if x.ndim != 1:
        x = reshape_arr(ex, st, x, (-1,), node)
    s, ct, im, kind = sum_term(ex, st, x, True)
    return F(False, s(Z(x.shape[0]))) if kind == "f" else s(Z(x.shape[0]))


@reg("time.time", "time")
def _time(ex, st, node):
    return F(False, z3.Real(ex.nm("time")))


def gufunc(ex, fn, sig, args, kw, st, node):
    """numba.guvectorize: the kernel is applied to every combination of the loop
    (leading) indices, which broadcast; each output element is what the kernel
    leaves in its output argument for that index"""
    ins, outs = sig
    names = [x.arg for x in fn.node.args.args]
    if kw:
        args = list(args) + [kw[n] for n in names[len(args):len(ins)]]
    E.check_decorators(ex, fn.mod, fn.node)
    dims, loops = {}, []
    for a, core in zip(args, ins):
        if not isinstance(a, Arr):
            if core or not (is_num(a) or isinstance(a, int)):
                raise Unsupported("guvectorize: argument")
            continue
        k = len(core)
        if a.ndim < k:
            ex.oblige(st, "shape", "guvectorize", False, ex.loc(node, st) if node is not None else "?")
            raise E.DeadPath()
        for nme, d in zip(core, a.shape[a.ndim - k:]):
            if nme in dims and not dim_eq(ex, st, dims[nme], d):
                ex.oblige(st, "shape", "guvectorize", Z(dims[nme]) == Z(d), ex.loc(node, st) if node is not None else "?")
            dims.setdefault(nme, d)
        loops.append(a.shape[: a.ndim - k])
    shape = bcast_shapes(ex, st, loops, node) if loops else ()
    snap = st.copy()

    def run(s, idx):
        vals = []
        for a, core in zip(args, ins):
            if not isinstance(a, Arr):
                vals.append(a)
                continue
            lead = a.shape[: a.ndim - len(core)]
            own = tuple(0 if one(d) else i for d, i in zip(lead, idx[len(idx) - len(lead):]))
            if core:
                g = getter(s, a)
                vals.append(ex.new_arr(s, Content(a.shape[a.ndim - len(core):], s.heap[a.cell].kind, lambda v, g=g, own=own: g(own + tuple(v)))))
            else:
                vals.append(getter(s, a)(own))
        res = []
        for core in outs:
            shp = tuple(dims[c] for c in core) or (1,)
            kinds = getattr(ex.contract, "guf_int", {}).get(fn.qual)
            res.append(ex.new_arr(s, E.fresh_content("out", shp, "i" if kinds else "f", False if kinds else True, name=ex.nm("out"))))
        v = ex.inline(fn, vals + res, {}, s, node)
        return res

    # the obligations of the kernel, for every loop index
    if not ex.quiet:
        s = st.copy()
        idx = tuple(z3.Int(ex.nm("gi")) for _ in shape)
        for i, n in zip(idx, shape):
            s.assume(z3.And(0 <= i, i < Z(n)))
        try:
            run(s, idx)
        except E.ForkNeeded:
            raise Unsupported("guvectorize: kernel with branches")

    def elem(k):
        memo = {}

        def get(idx):
            L = len(shape)
            lo, co = tuple(idx[:L]), tuple(idx[L:])
            key = tuple(x if isinstance(x, int) else ("z", x.get_id()) for x in lo)
            if key not in memo:
                s = snap.copy()
                s.choices, s.cpos = [], 0
                ex.quiet += 1
                try:
                    r = run(s, lo)
                finally:
                    ex.quiet -= 1
                memo[key] = (s, r, lo)
            s, r, _ = memo[key]
            return getter(s, r[k])(co or (0,))
        return get

    res = []
    for k, core in enumerate(outs):
        shp = tuple(shape) + tuple(dims[c] for c in core)
        g = elem(k)
        if not shp:
            res.append(g(()))
        else:
            kinds = getattr(ex.contract, "guf_int", {}).get(fn.qual)
            res.append(ex.new_arr(st, Content(shp, "i" if kinds else "f", g)))
    return res[0] if len(res) == 1 else tuple(res)


# ---------------------------------------------------------------- methods
def method(ex, obj, name, args, kw, st, node):
    if hasattr(obj, "method_model"):
        return obj.method_model(ex, name, args, kw, st, node)
    if isinstance(obj, E.Module) and name == "getattr" and len(args) == 1 and isinstance(args[0], str):
        return ex.global_name(obj, args[0], st)
    if isinstance(obj, E.PyDict):
        if any(isinstance(x, E.Undef) for x in obj.values()):
            raise Unsupported("dict changed in a loop")
        if name == "get":
            k = args[0]
            if not isinstance(k, str):
                raise Unsupported("dict.get")
            return obj.get(k, args[1] if len(args) > 1 else None)
        if name == "pop":
            k = args[0]
            mutable_here(ex, obj)
            if k not in obj and len(args) < 2:
                raise Unsupported("dict.pop of a missing key")
            return obj.pop(k, *args[1:])
        if name == "items":
            return tuple((k, v) for k, v in obj.items())
        if name == "keys":
            return tuple(obj.keys())
        if name == "values":
            return tuple(obj.values())
        if name == "update":
            mutable_here(ex, obj)
            if not isinstance(args[0], E.PyDict):
                raise Unsupported("dict.update")
            obj.update(args[0])
            return None
        if name == "clear":
            mutable_here(ex, obj)
            obj.clear()
            return None
        raise Unsupported("dict." + name)
    if isinstance(obj, str):
        if name == "lower":
            return obj.lower()
        if name == "upper":
            return obj.upper()
        if name in ("format", "join"):
            return "<str>"
        if name in ("startswith", "endswith") and all(isinstance(a, str) for a in args):
            return getattr(obj, name)(*args)
        raise Unsupported("str." + name)
    if isinstance(obj, list):
        if name == "append":
            obj.append(args[0])
            return None
        raise Unsupported("list." + name)
    if isinstance(obj, tuple):
        if name == "index":
            for i, x in enumerate(obj):
                if isinstance(x, str) and isinstance(args[0], str) and x == args[0]:
                    return i
            if all(isinstance(x, str) for x in obj) and isinstance(args[0], str):
                raise E.Raises("ValueError")
        raise Unsupported("tuple." + name)
    if isinstance(obj, Arr):
        if name == "copy":
            return copy_arr(ex, st, obj)
        if name == "reshape":
            s = args[0] if len(args) == 1 else tuple(args)
            return reshape_arr(ex, st, obj, shape_arg(ex, st, s), node)
        if name in ("ravel", "flatten"):
            return reshape_arr(ex, st, obj, (-1,), node)
        if name == "astype":
            return astype(ex, st, obj, dtype_kind(args[0]))
        if name == "transpose":
            return transpose(ex, obj, args[0] if args and isinstance(args[0], tuple) else (args or None), st)
        if name in ("sum",):
            return _npsum(ex, st, node, obj, *args, **kw)
        if name in ("max", "min", "all", "any"):
            return TABLE["np." + name](ex, st, node, obj, *args)
        if name == "fill":
            setitem(ex, obj, (Ellipsis,), args[0], st, node)
            return None
        raise Unsupported("array method " + name)
    if isinstance(obj, F) or is_num(obj):
        if name == "copy":
            return obj
        if name == "item":
            return obj
    raise Unsupported(f"method {name} of {obj!r}")


from . import sparse_model  # noqa
