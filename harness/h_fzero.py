"""C01, C02: root finding"""
import numpy as np, numba as nb
from hutil import *
from neutralocean.fzero import brent, guess_to_bounds, brent_guess


@nb.njit
def fam(x, kind, r, s):
    # kind 0: product of (x - r_i), times s[0];  1: piecewise linear (r: nodes, s: values)
    # kind 2: step: s[j] on (r[j-1], r[j]];  3: s[0] * exp(s[1]*x) * prod sign-changing factor
    if kind == 0:
        y = s[0]
        for i in range(r.size):
            y *= x - r[i]
        return y
    if kind == 1:
        if x <= r[0]:
            return s[0]
        for i in range(1, r.size):
            if x <= r[i]:
                return s[i - 1] + (s[i] - s[i - 1]) * (x - r[i - 1]) / (r[i] - r[i - 1])
        return s[-1]
    if kind == 2:
        for i in range(r.size):
            if x <= r[i]:
                return s[i]
        return s[-1]
    y = s[0] * np.exp(s[1] * x)
    for i in range(r.size):
        y *= np.cbrt(x - r[i]) if s[2] > 0 else (x - r[i]) ** 3
    return y


def args_of(c):
    return (c["f"], np.array(c["r"], float), np.array(c["s"], float))


def sgn(v):
    return (v > 0) - (v < 0)


def has_change(x, lo, hi, args):
    """is there a zero or a sign change of f in [lo, hi]?"""
    kind, r, s = args
    pts = [lo, hi, x] + [q for q in r if lo <= q <= hi]
    pts = sorted(set(pts))
    mids = [(p + q) / 2 for p, q in zip(pts, pts[1:])]
    up = [np.nextafter(q, np.inf) for q in r if lo <= q < hi]
    allp = sorted(set(pts + mids + [u for u in up if lo <= u <= hi]))
    sg = [sgn(fam(p, *args)) for p in allp]
    return 0 in sg or (max(sg) > 0 and min(sg) < 0)


EPS = np.finfo(float).eps


def root_ok(x, a, b, t, args, what):
    if not (a <= x <= b):
        return f"{what}: returned {x!r} outside [{a!r}, {b!r}]"
    w = 2 * (2 * EPS * abs(x) + t) * (1 + 1e-9) + 4 * EPS * abs(x) + 5e-324
    if fam(x, *args) == 0:
        return None
    if not has_change(x, max(a, x - w), min(b, x + w), args):
        return f"{what}: no zero or sign change within {w!r} of the returned {x!r} on [{a!r}, {b!r}]"


def check(c):
    args = args_of(c)
    a, b, t = (np.nan if c[k] is None else float(c[k]) for k in ("a", "b", "t"))
    if c["kind"] == "brent":
        x = brent(fam, a, b, t, args)
        if a != a or b != b or a > b:
            return None if x != x else f"brent: {x!r} for a bad interval"
        sa, sb = sgn(fam(a, *args)), sgn(fam(b, *args))
        if sa * sb > 0:
            return None if x != x else f"brent: {x!r} without a sign change"
        if x != x:
            return f"brent: NaN although f({a!r}), f({b!r}) differ in sign"
        return root_ok(x, a, b, t, args, "brent")
    g = np.nan if c["g"] is None else float(c["g"])
    bad = a != a or b != b or g != g
    if c["kind"] == "bounds":
        lo, hi = guess_to_bounds(fam, g, a, b, args)
        if (lo != lo) != (hi != hi):
            return f"guess_to_bounds: {(lo, hi)!r}"
        if bad:
            return None if lo != lo else "guess_to_bounds: bounds from NaN input"
        if lo != lo:
            sa, sb = sgn(fam(a, *args)), sgn(fam(b, *args))
            if sa == 0 or sb == 0 or sa != sb:
                return "guess_to_bounds: NaN although the ends of the range differ in sign"
            return None
        if not (a <= lo <= hi <= b):
            return f"guess_to_bounds: {(lo, hi)!r} not nested in {(a, b)!r}"
        fl, fh = fam(lo, *args), fam(hi, *args)
        if not ((lo == hi and fl == 0) or ((fl > 0) != (fh > 0))):
            return f"guess_to_bounds: no sign change on {(lo, hi)!r}: {fl!r}, {fh!r}"
        return None
    x = brent_guess(fam, g, a, b, t, args)
    if bad:
        return None if x != x else "brent_guess: number from NaN input"
    sa, sb = sgn(fam(a, *args)), sgn(fam(b, *args))
    if x != x:
        if sa == 0 or sb == 0 or sa != sb:
            return "brent_guess: NaN although the ends of the range differ in sign"
        return None
    return root_ok(x, a, b, t, args, "brent_guess")


def edge():
    out = []
    fs = [dict(f=0, r=[1.0], s=[2.0]), dict(f=0, r=[0.0], s=[-1.0]), dict(f=0, r=[1.0, 2.0, 3.0], s=[1.0]),
          dict(f=1, r=[0.0, 1.0, 5.0], s=[-1.0, 0.5, 20.0]), dict(f=2, r=[0.3, 0.7, 4.0], s=[-1.0, 1e-3, 1e3]),
          dict(f=2, r=[2.5, 2.6, 4.0], s=[1e6, -1.0, -1e-6]), dict(f=3, r=[1.5], s=[1e-3, 2.0, 1.0]), dict(f=3, r=[1.5], s=[1.0, -3.0, -1.0]),
          dict(f=0, r=[], s=[1.0]), dict(f=0, r=[], s=[-1.0]), dict(f=0, r=[], s=[0.0]), dict(f=0, r=[0.0, 4.0], s=[1.0]),
          dict(f=0, r=[0.0], s=[1e-100]), dict(f=0, r=[1e-3], s=[1e100])]
    for f in fs:
        for (a, b) in ((0.0, 4.0), (-3.0, 2.5), (1.0, 1.0), (1.0, 3.0), (2.0, 1.0), (None, 1.0), (0.0, None), (1.5, 1e6)):
            for t in (0.0, 1e-6, 0.1):
                out.append(dict(kind="brent", a=a, b=b, t=t, **f))
            if a is not None and b is not None and a > b:
                continue
            for g in (None, a, b, 1.0, -100.0, 1e9, 2.0):
                out.append(dict(kind="bounds", a=a, b=b, t=0.0, g=g, **f))
                out.append(dict(kind="guess", a=a, b=b, t=1e-4, g=g, **f))
    return out


def gen(rng):
    k = rng.choice([0, 0, 1, 1, 2, 2, 3])
    a = rng.choice([0.0, rng.uniform(-10, 10), rng.uniform(-1e4, 1e4)])
    b = a + rng.choice([rng.expovariate(1), 10 ** rng.uniform(-9, 4), 0.0, 6000.0])
    t = rng.choice([0.0, 10 ** rng.uniform(-12, 0), 1e-4, (b - a) * rng.uniform(0, 0.3)])
    w = b - a
    if k in (0, 3):
        m = rng.choice([1, 1, 1, 2, 3])
        r = sorted(a + w * rng.choice([rng.random(), rng.uniform(-0.5, 1.5), 0.0, 1.0]) for _ in range(m))
        s = [rng.choice([-1, 1]) * 10 ** rng.uniform(-6, 6)] if k == 0 else [rng.choice([-1.0, 1.0]), rng.uniform(-3, 3) / max(w, 1e-3), rng.choice([-1.0, 1.0])]
        if k == 3 and abs(s[1] * a) > 100:
            s[1] = 0.0
    else:
        m = rng.choice([2, 3, 4, 6])
        r = sorted(set([a + w * rng.random() for _ in range(m)] + ([a, b] if rng.random() < 0.5 else [])))
        if len(r) < 2 or min(q - p for p, q in zip(r, r[1:])) < 1e-12 * (abs(a) + abs(b) + 1):
            r = [a - 1.0, a + 1.0 + w]
        s = [rng.choice([-1, 1]) * 10 ** rng.uniform(-6, 6) if rng.random() < 0.9 else 0.0 for _ in r]
        if rng.random() < 0.7:
            j = rng.randrange(1, len(r)) if len(r) > 1 else 0
            s = [-abs(v) if i < j else abs(v) for i, v in enumerate(s)]
    c = dict(kind=rng.choice(["brent", "bounds", "guess"]), f=k, r=r, s=s, a=a, b=b, t=t)
    if c["kind"] != "brent":
        c["g"] = rng.choice([a, b, rng.uniform(a, b), a - 1, b + 1, a + w * 1e-9, b - w * 1e-9])
    return c
