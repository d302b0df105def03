"""Derivative of a symbolic result with respect to an input."""
import z3
from . import sym as S


def diff(t, x, memo=None):
    """d t / d x as a z3 term; x is a z3 real constant"""
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    zero = z3.RealVal(0)
    if t.eq(x):
        r = z3.RealVal(1)
    elif z3.is_rational_value(t) or z3.is_algebraic_value(t) or z3.is_int(t):
        r = zero
    else:
        kind = t.decl().kind()
        ch = t.children()
        if kind == z3.Z3_OP_ADD:
            r = z3.Sum([diff(c, x, memo) for c in ch])
        elif kind == z3.Z3_OP_SUB:
            r = diff(ch[0], x, memo)
            for c in ch[1:]:
                r = r - diff(c, x, memo)
        elif kind == z3.Z3_OP_UMINUS:
            r = -diff(ch[0], x, memo)
        elif kind == z3.Z3_OP_MUL:
            r = zero
            for i, c in enumerate(ch):
                d = diff(c, x, memo)
                for j, o in enumerate(ch):
                    if i != j:
                        d = d * o
                r = r + d
        elif kind == z3.Z3_OP_DIV:
            a, b = ch
            r = (diff(a, x, memo) * b - a * diff(b, x, memo)) / (b * b)
        elif kind == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            n = ch[1]
            r = n * ch[0] ** z3.simplify(n - 1) * diff(ch[0], x, memo)
        elif kind == z3.Z3_OP_ITE:
            r = z3.If(ch[0], diff(ch[1], x, memo), diff(ch[2], x, memo))
        elif kind == z3.Z3_OP_TO_REAL:
            r = zero
        elif kind == z3.Z3_OP_UNINTERPRETED and t.decl().name() == 'EXP':
            r = t * diff(ch[0], x, memo)
        elif kind == z3.Z3_OP_UNINTERPRETED and not ch:
            d = S.CTX.defs.get(t.decl().name())
            if d is None:
                r = zero
            elif d[0] == 'log':
                r = diff(d[1], x, memo) / d[1]
            elif d[0] == 'sqrt':
                r = diff(d[1], x, memo) / (2 * t)
            else:
                raise S.Unsupported('derivative of %s' % d[0])
        else:
            raise S.Unsupported('derivative of %s' % t.decl())
    r = z3.simplify(r)
    memo[k] = (t, r)
    return r
