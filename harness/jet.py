"""Truncated Taylor series (total order 3) in three variables over 50-digit decimals."""
from decimal import Decimal, getcontext
import itertools

getcontext().prec = 50
ORD = 3
MON = [m for m in itertools.product(range(ORD + 1), repeat=3) if sum(m) <= ORD]
PAIRS = [(a, b, tuple(x + y for x, y in zip(a, b))) for a in MON for b in MON if sum(a) + sum(b) <= ORD]


def D(x):
    if isinstance(x, Decimal):
        return x
    return Decimal(float(x)) if not isinstance(x, int) else Decimal(x)


class Jet:
    __slots__ = ("c",)
    __array_priority__ = 1000

    def __init__(self, c):
        self.c = c

    @staticmethod
    def const(x):
        return Jet({(0, 0, 0): D(x)})

    @staticmethod
    def var(x, k):
        m = tuple(int(i == k) for i in range(3))
        return Jet({(0, 0, 0): D(x), m: Decimal(1)})

    @property
    def v(self):
        return self.c.get((0, 0, 0), Decimal(0))

    def deriv(self, m):
        f = 1
        for e in m:
            for k in range(1, e + 1):
                f *= k
        return self.c.get(tuple(m), Decimal(0)) * f

    def lift(o):
        if isinstance(o, Jet):
            return o
        if hasattr(o, "item"):
            o = o.item()
        if isinstance(o, (int, float)):
            return Jet.const(o)
        raise TypeError(f"Jet with {type(o)}")

    def __add__(a, b):
        b = Jet.lift(b)
        c = dict(a.c)
        for k, v in b.c.items():
            c[k] = c.get(k, Decimal(0)) + v
        return Jet(c)

    __radd__ = __add__

    def __neg__(a):
        return Jet({k: -v for k, v in a.c.items()})

    def __pos__(a):
        return a

    def __sub__(a, b):
        return a + (-Jet.lift(b))

    def __rsub__(a, b):
        return Jet.lift(b) + (-a)

    def __mul__(a, b):
        b = Jet.lift(b)
        c = {}
        for k1, v1 in a.c.items():
            s1 = sum(k1)
            for k2, v2 in b.c.items():
                if s1 + sum(k2) <= ORD:
                    k = (k1[0] + k2[0], k1[1] + k2[1], k1[2] + k2[2])
                    c[k] = c.get(k, Decimal(0)) + v1 * v2
        return Jet(c)

    __rmul__ = __mul__

    def compose(a, ders):
        """sum_k ders[k]/k! (a - a0)^k"""
        h = Jet({k: v for k, v in a.c.items() if k != (0, 0, 0)})
        out, p, f = Jet.const(0), Jet.const(1), 1
        for k, d in enumerate(ders):
            if k:
                p = p * h
                f *= k
            out = out + p * Jet({(0, 0, 0): d / f})
        return out

    def inv(a):
        x = a.v
        return a.compose([1 / x, -1 / x**2, 2 / x**3, -6 / x**4])

    def __truediv__(a, b):
        return a * Jet.lift(b).inv()

    def __rtruediv__(a, b):
        return Jet.lift(b) * a.inv()

    def sqrt(a):
        r = a.v.sqrt()
        x = a.v
        return a.compose([r, 1 / (2 * r), -1 / (4 * r * x), Decimal(3) / (8 * r * x * x)])

    def __pow__(a, n):
        if isinstance(n, Jet):
            raise TypeError("Jet power")
        if hasattr(n, "item"):
            n = n.item()
        if float(n) == 0.5:
            return a.sqrt()
        if float(n) != int(n):
            if float(2 * n) == int(2 * n):
                return a.sqrt() ** int(2 * n)
            raise TypeError("Jet power")
        n = int(n)
        if n < 0:
            return (a ** (-n)).inv()
        out = Jet.const(1)
        for _ in range(n):
            out = out * a
        return out

    def cmp(a, b):
        return a.v, Jet.lift(b).v

    def __lt__(a, b):
        x, y = a.cmp(b)
        return x < y

    def __le__(a, b):
        x, y = a.cmp(b)
        return x <= y

    def __gt__(a, b):
        x, y = a.cmp(b)
        return x > y

    def __ge__(a, b):
        x, y = a.cmp(b)
        return x >= y

    def __eq__(a, b):
        try:
            x, y = a.cmp(b)
        except TypeError:
            return False
        return x == y

    def __hash__(self):
        return id(self)
