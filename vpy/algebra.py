"""Exact rational functions in finitely many variables: a decision procedure for
identities between (derivatives of) the closed-form expressions an executed
function body denotes.

A z3 term is converted to a RatFn; square roots whose argument is the square of a
variable (after the substitution of the contract) become that variable.  Two
rational functions are equal iff the cross product difference is the zero
polynomial; monomial-wise differences of relative size 1e-15 count as zero, so that
re-associated floating-point constants (0.1*3 for 0.3) are not reported."""
import time
from fractions import Fraction
import z3
from .values import Unsupported

REL = Fraction(1, 10**15)


def fr(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(float(x)))


class Poly:
    """dict exponent tuple -> Fraction; exponents may be negative (Laurent)"""

    __slots__ = ("d", "n")

    def __init__(self, d, n):
        self.d, self.n = d, n

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            s = d.get(k, 0) + v
            if s:
                d[k] = s
            else:
                d.pop(k, None)
        return Poly(d, self.n)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.d.items()} if c else {}, self.n)

    def __mul__(self, o):
        d = {}
        a, b = (self.d, o.d) if len(self.d) <= len(o.d) else (o.d, self.d)
        if len(a) * len(b) > 40_000_000:
            raise Unsupported("polynomial too large")
        for k1, v1 in a.items():
            for k2, v2 in b.items():
                k = tuple(map(int.__add__, k1, k2))
                d[k] = d.get(k, 0) + v1 * v2
        return Poly({k: v for k, v in d.items() if v}, self.n)

    def abs(self):
        return Poly({k: abs(v) for k, v in self.d.items()}, self.n)

    def diff(self, i):
        d = {}
        for k, v in self.d.items():
            if k[i]:
                kk = k[:i] + (k[i] - 1,) + k[i + 1:]
                d[kk] = v * k[i]
        return Poly(d, self.n)

    def mono(self):
        """(coefficient, exponents) if a single monomial"""
        if len(self.d) == 1:
            (k, v), = self.d.items()
            return v, k
        return None


class RatFn:
    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        n = num.n
        if den is None:
            den = Poly({(0,) * n: Fraction(1)}, n)
        m = den.mono()
        if m is not None:
            # monomial denominators are absorbed (Laurent polynomials)
            c, e = m
            if any(e) or c != 1:
                num = Poly({tuple(map(int.__sub__, k, e)): v / c for k, v in num.d.items()}, n)
                den = Poly({(0,) * n: Fraction(1)}, n)
        self.num, self.den = num, den

    @staticmethod
    def const(c, n):
        c = fr(c)
        return RatFn(Poly({(0,) * n: c} if c else {}, n))

    @staticmethod
    def var(i, n):
        return RatFn(Poly({tuple(int(j == i) for j in range(n)): Fraction(1)}, n))

    def lift(self, o):
        return o if isinstance(o, RatFn) else RatFn.const(o, self.num.n)

    def __add__(self, o):
        o = self.lift(o)
        if self.den.d == o.den.d:
            return RatFn(self.num + o.num, self.den)
        return RatFn(self.num * o.den + o.num * self.den, self.den * o.den)

    __radd__ = __add__

    def __neg__(self):
        return RatFn(self.num.scale(-1), self.den)

    def __sub__(self, o):
        return self + (-self.lift(o))

    def __rsub__(self, o):
        return self.lift(o) - self

    def __mul__(self, o):
        o = self.lift(o)
        return RatFn(self.num * o.num, self.den * o.den)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self.lift(o)
        if not o.num.d:
            raise Unsupported("division by the zero function")
        if self.den.d == o.den.d:
            return RatFn(self.num, o.num)
        return RatFn(self.num * o.den, self.den * o.num)

    def __rtruediv__(self, o):
        return self.lift(o) / self

    def __pow__(self, k):
        if k != int(k) or k < 0:
            raise Unsupported(f"power {k}")
        r = RatFn.const(1, self.num.n)
        for _ in range(int(k)):
            r = r * self
        return r

    def diff(self, i):
        if self.den.mono() is not None:
            return RatFn(self.num.diff(i), self.den)
        return RatFn(self.num.diff(i) * self.den + (self.num * self.den.diff(i)).scale(-1), self.den * self.den)

    def sqrt(self):
        m = self.num.mono()
        if m is None or self.den.mono() is None:
            raise Unsupported("square root of a non-square")
        c, e = m
        if c != 1 or any(x % 2 for x in e):
            raise Unsupported("square root of a non-square")
        return RatFn(Poly({tuple(x // 2 for x in e): Fraction(1)}, self.num.n))


def to_ratfn(e, env, n, decide, memo=None):
    """z3 real term -> RatFn.  env: name of constant -> RatFn; decide(cond) -> bool or None"""
    memo = {} if memo is None else memo

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][0]
        r = go1(x)
        memo[k] = (r, x)
        return r

    def go1(x):
        if z3.is_rational_value(x):
            return RatFn.const(Fraction(x.numerator_as_long(), x.denominator_as_long()), n)
        if z3.is_int_value(x):
            return RatFn.const(x.as_long(), n)
        d = x.decl()
        k = d.kind()
        ch = x.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch and d.name() in env:
                return env[d.name()]
            if d.name() == "sqrt":
                return go(ch[0]).sqrt()
            raise Unsupported(f"algebra: {d.name()}")
        if k == z3.Z3_OP_ADD:
            r = go(ch[0])
            for c in ch[1:]:
                r = r + go(c)
            return r
        if k == z3.Z3_OP_SUB:
            r = go(ch[0])
            for c in ch[1:]:
                r = r - go(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -go(ch[0])
        if k == z3.Z3_OP_MUL:
            r = go(ch[0])
            for c in ch[1:]:
                r = r * go(c)
            return r
        if k == z3.Z3_OP_DIV:
            return go(ch[0]) / go(ch[1])
        if k == z3.Z3_OP_ITE:
            b = decide(ch[0])
            if b is None:
                raise Unsupported("algebra: undecided condition")
            return go(ch[1] if b else ch[2])
        if k == z3.Z3_OP_TO_REAL:
            return go(ch[0])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
            return go(ch[0]) ** ch[1].numerator_as_long()
        raise Unsupported(f"algebra: operator {d.name()}")

    return go(e)


def sqrt_args(e):
    out, seen, stack = [], set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == "sqrt":
            out.append(x.arg(0))
        stack.extend(x.children())
    return out


class AlgGoal:
    """an obligation decided by exact algebra instead of an SMT solver"""

    def __init__(self, a, b, text):
        self.a, self.b, self.text = a, b, text

    def get_id(self):
        return id(self)

    def __str__(self):
        return self.text

    def decide(self):
        t0 = time.time()
        a, b = self.a, self.b
        tried = []
        if a.den.d == b.den.d:
            l, r = a.num, b.num
        else:
            l, r = a.num * b.den, b.num * a.den
        diff = l + r.scale(-1)
        st, model = "valid", ""
        how = "algebra-exact"
        if diff.d:
            how = "algebra-1e-15"
            if a.den.d == b.den.d:
                mag = l.abs() + r.abs()
            else:
                mag = a.num.abs() * b.den.abs() + b.num.abs() * a.den.abs()
            bad = [(k, v, mag.d.get(k, 0)) for k, v in diff.d.items() if abs(v) > REL * mag.d.get(k, 0)]
            if bad:
                st = "sat"
                bad.sort(key=lambda x: -abs(x[1]) / x[2] if x[2] else -1)
                model = f"{len(bad)} of {len(diff.d)} monomials of the cross product differ; e.g. exponents {bad[0][0]}: difference {float(bad[0][1]):.3e} of {float(bad[0][2]):.3e}"
        return dict(status=st, backend=how if st == "valid" else "algebra", model=model, time=time.time() - t0, tried=[how])
