"""Goal splitting and rational-function identities.

split(goal): skolemise / split a goal into simpler subgoals (sound and complete).
ratio_identity(lhs, rhs): is lhs == rhs an identity of rational functions in its
non-arithmetic subterms?  Returns the divisors that must be non-zero, or None.
"""
import itertools
import z3

_sk = itertools.count()


def split(goal, pc=()):
    """-> list of (extra facts, subgoal)"""
    out = []

    def go(g, extra):
        if z3.is_true(g):
            return
        if z3.is_quantifier(g) and g.is_forall():
            vs = [z3.Const(f"sk!{g.var_name(i)}!{next(_sk)}", g.var_sort(i)) for i in range(g.num_vars())]
            go(z3.substitute_vars(g.body(), *reversed(vs)), extra)
            return
        if z3.is_and(g):
            for c in g.children():
                go(c, extra)
            return
        if z3.is_implies(g):
            go(g.arg(1), extra + conj(g.arg(0)))
            return
        if z3.is_not(g):
            x = g.arg(0)
            if z3.is_or(x):
                for c in x.children():
                    go(z3.Not(c), extra)
                return
            if z3.is_implies(x):
                go(x.arg(0), extra)
                go(z3.Not(x.arg(1)), extra)
                return
            if z3.is_not(x):
                go(x.arg(0), extra)
                return
        if z3.is_eq(g) and z3.is_bool(g.arg(0)):
            a, b = g.arg(0), g.arg(1)
            if not (z3.is_const(a) or z3.is_const(b)):
                go(b, extra + [a])
                go(a, extra + [b])
                return
        if z3.is_app_of(g, z3.Z3_OP_ITE) and z3.is_bool(g):
            go(g.arg(1), extra + [g.arg(0)])
            go(g.arg(2), extra + [z3.Not(g.arg(0))])
            return
        out.append((extra, g))

    go(goal, [])
    return out


def conj(f):
    if z3.is_and(f):
        return [x for c in f.children() for x in conj(c)]
    if z3.is_quantifier(f) and f.is_exists():
        vs = [z3.Const(f"sk!{f.var_name(i)}!{next(_sk)}", f.var_sort(i)) for i in range(f.num_vars())]
        return conj(z3.substitute_vars(f.body(), *reversed(vs)))
    return [f]


def find_ite(e):
    """an innermost-condition ite inside a term (not below quantifiers)"""
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) and not z3.is_bool(x):
            # conditions nested in the condition come first
            inner = find_ite(x.arg(0))
            return inner if inner is not None else x
        stack.extend(x.children())
    return None


def entails(pc, f, ms):
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*pc)
    s.add(z3.Not(f))
    return s.check() == z3.unsat


def resolve_ites(pc, g, limit=24, ms=250):
    """case split on the ite conditions of g -> list of (extra, goal)"""
    out = []

    def go(extra, g, depth):
        x = find_ite(g)
        if x is None or depth > 40:
            out.append((extra, g))
            if len(out) > limit:
                raise OverflowError
            return
        c = x.arg(0)
        now = list(pc) + extra
        if entails(now, c, ms):
            go(extra, z3.simplify(z3.substitute(g, (c, z3.BoolVal(True))), som=False), depth + 1)
        elif entails(now, z3.Not(c), ms):
            go(extra, z3.simplify(z3.substitute(g, (c, z3.BoolVal(False))), som=False), depth + 1)
        else:
            go(extra + [c], z3.simplify(z3.substitute(g, (c, z3.BoolVal(True)))), depth + 1)
            go(extra + [z3.Not(c)], z3.simplify(z3.substitute(g, (c, z3.BoolVal(False)))), depth + 1)

    go([], g, 0)
    return out


# --------------------------------------------------------------- rational functions
class Rat:
    """num/den as sparse integer-coefficient polynomials over atoms"""


def pmul(a, b):
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = dict(m1)
            for v, e in m2:
                d[v] = d.get(v, 0) + e
            k = tuple(sorted(d.items()))
            out[k] = out.get(k, 0) + c1 * c2
            if len(out) > 200000:
                raise OverflowError
    return {k: v for k, v in out.items() if v != 0}


def padd(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
        if out[k] == 0:
            del out[k]
    return out


ONE = {(): 1}


def to_rat(e, atoms, divs, memo):
    from fractions import Fraction

    i = e.get_id()
    if i in memo:
        return memo[i][0]
    if z3.is_rational_value(e):
        r = ({(): Fraction(e.numerator_as_long(), e.denominator_as_long())} if e.numerator_as_long() else {}, ONE)
    elif z3.is_int_value(e):
        r = ({(): Fraction(e.as_long())} if e.as_long() else {}, ONE)
    elif z3.is_app(e):
        k = e.decl().kind()
        ch = e.children()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            r = to_rat(ch[0], atoms, divs, memo)
            for c in ch[1:]:
                q = to_rat(c, atoms, divs, memo)
                s = 1 if k == z3.Z3_OP_ADD else -1
                if r[1] == q[1]:
                    r = (padd(r[0], q[0], s), r[1])
                else:
                    r = (padd(pmul(r[0], q[1]), pmul(q[0], r[1]), s), pmul(r[1], q[1]))
        elif k == z3.Z3_OP_UMINUS:
            q = to_rat(ch[0], atoms, divs, memo)
            r = ({m: -c for m, c in q[0].items()}, q[1])
        elif k == z3.Z3_OP_MUL:
            r = to_rat(ch[0], atoms, divs, memo)
            for c in ch[1:]:
                q = to_rat(c, atoms, divs, memo)
                r = (pmul(r[0], q[0]), pmul(r[1], q[1]))
        elif k == z3.Z3_OP_DIV:
            a = to_rat(ch[0], atoms, divs, memo)
            b = to_rat(ch[1], atoms, divs, memo)
            if not z3.is_rational_value(ch[1]):
                divs[ch[1].get_id()] = ch[1]
            if not b[0]:
                raise OverflowError
            r = (pmul(a[0], b[1]), pmul(a[1], b[0]))
        elif k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 12:
            b = to_rat(ch[0], atoms, divs, memo)
            r = (ONE, ONE)
            for _ in range(ch[1].numerator_as_long()):
                r = (pmul(r[0], b[0]), pmul(r[1], b[1]))
        else:
            atoms[i] = e
            r = ({((i, 1),): 1}, ONE)
    else:
        raise OverflowError
    memo[i] = (r, e)
    return r


def identity(lhs, rhs, subst=()):
    """-> list of divisors if lhs == rhs as rational functions, else None"""
    try:
        atoms, divs, memo = {}, {}, {}
        a = to_rat(lhs, atoms, divs, memo)
        b = to_rat(rhs, atoms, divs, memo)
        d = padd(pmul(a[0], b[1]), pmul(b[0], a[1]), -1)
    except (OverflowError, RecursionError):
        return None
    if d:
        return None
    return list(divs.values())
