"""Lambda lifting of symbolic arrays.

An array whose element at index (@0, @1, ..) is the term t is determined by the
shape of t and by the sub-terms of t that do not mention the index.  `lift`
returns the former as a string (the skeleton) and the latter as a list of
parameters, so that "the value of a pure function of this array" can be written
as an uninterpreted function, one per skeleton, of the parameters.  Two arrays
with equal elements may get different skeletons (then nothing is known to be
equal); equal skeletons and parameters imply equal arrays."""
import hashlib
import z3
from .values import *  # noqa

_CAN = [z3.Int(f"@{i}") for i in range(4)]


def _has(t, memo):
    k = t.get_id()
    if k in memo:
        return memo[k][0]
    r = any(t.eq(c) for c in _CAN) or any(_has(c, memo) for c in t.children())
    memo[k] = (r, t)
    return r


def _sum(t, sign, out):
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD:
        for c in t.children():
            _sum(c, sign, out)
    elif k == z3.Z3_OP_SUB:
        ch = t.children()
        _sum(ch[0], sign, out)
        for c in ch[1:]:
            _sum(c, -sign, out)
    elif k == z3.Z3_OP_UMINUS:
        _sum(t.children()[0], -sign, out)
    else:
        out.append((sign, t))


def _lift(t, params, memo):
    if z3.is_quantifier(t):
        raise Unsupported("lift: quantifier")
    if not _has(t, memo):
        params.append(z3.simplify(t))
        return f"[{t.sort()}]"
    for i, c in enumerate(_CAN):
        if t.eq(c):
            if t.sort() == z3.IntSort():
                params.append(z3.IntVal(0))
                return f"(+ [Int] @{i})"
            return f"@{i}"
    if z3.is_int(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        parts = []
        _sum(t, 1, parts)
        free = [(s, x) for s, x in parts if not _has(x, memo)]
        idx = [(s, x) for s, x in parts if _has(x, memo)]
        tot = z3.IntVal(0)
        for s, x in free:
            tot = tot + x if s > 0 else tot - x
        sub = []
        for s, x in idx:
            if s > 0 and any(x.eq(c) for c in _CAN):
                sub.append((f"@{[x.eq(c) for c in _CAN].index(True)}", []))
            else:
                ps = []
                sub.append((("" if s > 0 else "-") + _lift(x, ps, memo), ps))
        sub.sort(key=lambda q: q[0])
        params.append(z3.simplify(tot))
        for _, ps in sub:
            params.extend(ps)
        return "(+ [Int] " + " ".join(q for q, _ in sub) + ")"
    d = t.decl()
    kids = []
    for c in t.children():
        ps = []
        kids.append((_lift(c, ps, memo), ps))
    if d.kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        kids.sort(key=lambda q: q[0])
    for _, ps in kids:
        params.extend(ps)
    return f"({d.name()}/{d.kind()} " + " ".join(q for q, _ in kids) + ")"


def lift_term(t):
    if isinstance(t, bool):
        return str(t), []
    t = Z(t)
    params = []
    return _lift(t, params, {}), params


def lift_elem(v):
    if isinstance(v, F):
        k1, p1 = lift_term(v.n)
        k2, p2 = lift_term(v.v)
        return f"F{{{k1};{k2}}}", p1 + p2
    return lift_term(v)


def lift(a):
    """ArrV -> (skeleton, parameters)"""
    return lift_elem(a[tuple(_CAN[: len(a.shape)])])


def can(n):
    return tuple(_CAN[:n])


def uf(kind, key, params, extra, out):
    """the uninterpreted function of this kind and skeleton, applied"""
    nm = kind + "_" + hashlib.md5((kind + key).encode()).hexdigest()[:10]
    ts = [Z(p) for p in params] + [Z(e) for e in extra]
    nm += "/" + "".join(t.sort().name()[0] for t in ts)
    res = []
    for suffix, sort in out:
        if ts:
            res.append(z3.Function(nm + suffix, *([t.sort() for t in ts] + [sort]))(*ts))
        else:
            res.append(z3.Const(nm + suffix, sort))
    return res
