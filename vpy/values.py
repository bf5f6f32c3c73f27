"""Value domain of the vpy verifier.

float   -> F(nan, val): a NaN flag and a mathematical real
int     -> python int or z3 Int term          bool -> python bool or z3 Bool term
array   -> Arr(cell, shape, idx map): a reference into the heap; the heap maps a
           cell to an immutable Content (shape, kind, element getter)
"""
from fractions import Fraction
import itertools
import z3


class Unsupported(Exception):
    """The function uses a construct outside the verifier's language."""


# ---------------------------------------------------------------- booleans
def isb(x):
    return isinstance(x, (bool, z3.BoolRef))


def AND(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = AND(*x)
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def OR(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = OR(*x)
        if isinstance(x, bool):
            if x:
                return True
            continue
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def NOT(x):
    if isinstance(x, bool):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def IMP(a, b):
    if isinstance(a, bool):
        return b if a else True
    if isinstance(b, bool):
        return True if b else NOT(a)
    return z3.Implies(a, b)


def IFF(a, b):
    if isinstance(a, bool):
        return b if a else NOT(b)
    if isinstance(b, bool):
        return a if b else NOT(a)
    if a.eq(b):
        return True
    return a == b


def Z(x):
    """python -> z3 term"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def real(x):
    """int/real term -> z3 Real term (or RealVal)"""
    if isinstance(x, F):
        return x.v
    if isinstance(x, bool):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, (int, Fraction)):
        return z3.RealVal(x)
    if isinstance(x, float):
        return z3.RealVal(Fraction(repr(x)))
    if z3.is_bool(x):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(x):
        if z3.is_int_value(x):
            return z3.RealVal(x.as_long())
        return z3.ToReal(x)
    return x


class F:
    """float: NaN flag and real value"""

    __slots__ = ("n", "v")

    def __init__(self, n, v):
        self.n = n
        self.v = v

    def __repr__(self):
        return f"F({self.n},{self.v})"


NAN = F(True, z3.RealVal(0))


def rv(x):
    return F(False, real(x))


class PInf:
    """+-infinity, kept symbolic: only comparisons are allowed"""

    def __init__(self, sign):
        self.sign = sign


def as_f(x):
    if isinstance(x, F):
        return x
    if isinstance(x, PInf):
        return F(False, z3.Real("oo" if x.sign > 0 else "-oo"))
    if isinstance(x, (bool, int, Fraction)) or z3.is_expr(x):
        return F(False, real(x))
    if isinstance(x, float):
        if x != x:
            return NAN
        return F(False, real(x))
    raise Unsupported(f"not a number: {x!r}")


def is_num(x):
    return isinstance(x, (bool, int, F, float, Fraction, PInf)) or (
        z3.is_expr(x) and (z3.is_arith(x) or z3.is_bool(x))
    )


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (
        z3.is_expr(x) and z3.is_int(x)
    )


def as_int(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if z3.is_expr(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(x) and z3.is_int(x):
        if z3.is_int_value(x):
            return x.as_long()
        return x
    raise Unsupported(f"not an int: {x!r}")


# ------------------------------------------------------------------ if-then-else
def same(a, b):
    if a is b:
        return True
    if isinstance(a, F) and isinstance(b, F):
        return same(a.n, b.n) and same(a.v, b.v)
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return type(a) == type(b) and a == b
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return False


def ITE(c, a, b):
    """if c then a else b on scalar values"""
    if isinstance(c, bool):
        return a if c else b
    if same(a, b):
        return a
    if isb(a) and isb(b):
        if isinstance(a, bool) and isinstance(b, bool):
            if a and not b:
                return c
            if b and not a:
                return NOT(c)
        if isinstance(a, bool):
            return OR(c, b) if a else AND(NOT(c), b)
        if isinstance(b, bool):
            return OR(NOT(c), a) if b else AND(c, a)
        return z3.If(c, a, b)
    if is_int(a) and is_int(b):
        return z3.If(c, Z(a), Z(b))
    if is_num(a) and is_num(b):
        a, b = as_f(a), as_f(b)
        v = a.v if a.v.eq(b.v) else z3.If(c, a.v, b.v)
        # the real under a NaN flag is irrelevant: keep terms small
        if isinstance(a.n, bool) and a.n:
            v = b.v
        elif isinstance(b.n, bool) and b.n:
            v = a.v
        return F(ITE(c, a.n, b.n), v)
    raise Unsupported(f"cannot merge {a!r} and {b!r}")


# ------------------------------------------------------------------ arrays
class Content:
    """Immutable array content."""

    __slots__ = ("shape", "kind", "get", "tag", "_memo")

    def __init__(self, shape, kind, get, tag=None):
        self.shape = tuple(shape)
        self.kind = kind
        self._memo = {}

        def memo_get(idx, get=get, memo=self._memo):
            key = tuple(i if isinstance(i, int) else i.get_id() for i in idx)
            r = memo.get(key)
            if r is None:
                r = (get(idx), idx)  # keep idx alive so ids stay valid
                memo[key] = r
            return r[0]

        self.get = memo_get
        self.tag = tag


class Arr:
    """Array reference: a (possibly strided) view of a heap cell."""

    __slots__ = ("cell", "shape", "imap", "ro")

    def __init__(self, cell, shape, imap=None):
        self.cell = cell
        self.shape = tuple(shape)
        self.imap = imap  # view index tuple -> base index tuple

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return f"Arr({self.cell},{self.shape})"


class ArrV:
    """Read-only snapshot of an array, for contracts: A[i] -> F/int/bool"""

    def __init__(self, content, shape=None, imap=None):
        self.content = content
        self.shape = tuple(shape if shape is not None else content.shape)
        self.imap = imap
        self.kind = content.kind

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        if len(idx) < len(self.shape):
            head = idx
            rest = self.shape[len(idx):]
            base = self

            def im(j, head=head):
                full = tuple(head) + tuple(j)
                return base.imap(full) if base.imap else full

            return ArrV(self.content, rest, im)
        if self.imap:
            idx = self.imap(tuple(idx))
        return self.content.get(tuple(idx))

    def slice(self, lo, hi):
        base = self

        def im(j):
            full = (ADD(j[0], lo),) + tuple(j[1:])
            return base.imap(full) if base.imap else full

        return ArrV(self.content, (SUB(hi, lo),) + self.shape[1:], im)

    @property
    def size(self):
        out = 1
        for s in self.shape:
            out = MUL(out, s)
        return out


def ADD(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return z3.simplify(Z(a) + Z(b)) if _small(a) and _small(b) else Z(a) + Z(b)


def SUB(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    r = Z(a) - Z(b)
    if _small(a) and _small(b):
        r = z3.simplify(r)
        if z3.is_int_value(r):
            return r.as_long()
    return r


def MUL(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    return Z(a) * Z(b)


def _small(x):
    return isinstance(x, int) or (x.num_args() <= 4 and all(c.num_args() <= 2 for c in x.children()))


_ctr = itertools.count()


def fresh_name(base):
    return f"{base}!{next(_ctr)}"


def reset_names():
    global _ctr
    _ctr = itertools.count()


def fresh_int(base="i"):
    return z3.Int(fresh_name(base))


def fresh_bool(base="b"):
    return z3.Bool(fresh_name(base))


def fresh_real(base="r"):
    return z3.Real(fresh_name(base))


def fresh_f(base="x", nan=True):
    n = fresh_name(base)
    return F(z3.Bool(n + ".nan") if nan else False, z3.Real(n))


def fresh_content(base, shape, kind, nan=True, name=None):
    n = name or fresh_name(base)
    sig = [z3.IntSort()] * len(shape)
    if kind == "f":
        fv = z3.Function(n, *sig, z3.RealSort())
        if nan:
            fn = z3.Function(n + ".nan", *sig, z3.BoolSort())

            def get(idx):
                ii = [Z(i) for i in idx]
                return F(fn(*ii), fv(*ii))
        else:

            def get(idx):
                return F(False, fv(*[Z(i) for i in idx]))
    elif kind == "i":
        fv = z3.Function(n, *sig, z3.IntSort())

        def get(idx):
            return fv(*[Z(i) for i in idx])
    elif kind == "b":
        fv = z3.Function(n, *sig, z3.BoolSort())

        def get(idx):
            return fv(*[Z(i) for i in idx])
    else:
        raise Unsupported("array kind " + kind)
    if len(shape) == 0:
        # z3 Function needs arity >= 1
        c = fresh_f(base, nan) if kind == "f" else (fresh_int(base) if kind == "i" else fresh_bool(base))
        return Content((), kind, lambda idx: c)
    return Content(shape, kind, get, tag=n)
