"""Symbolic derivative of a value number."""
from terms import *
import terms as TM


def D(t, x):
    if t is x:
        return ONE
    if t.op in ('num', 'sym'):
        return ZERO
    if t.op == 'ite':
        return ite(as_bool(t.args[0]), D(t.args[1], x), D(t.args[2], x))
    if t.op == 'throw':
        return t
    if t.op == 'poly':
        r = ZERO
        for m, c in t.args:
            for i, (a, e) in enumerate(m):
                da = D(a, x)
                if da is ZERO:
                    continue
                p = mul(num(c * e), mul(power(a, e - 1), da))
                for j, (b, f) in enumerate(m):
                    if j != i:
                        p = mul(p, power(b, f))
                r = add(r, p)
        return r
    if t.op == 'app':
        h, a = t.args[0], t.args[1:]
        if h == 'exp':
            return mul(t, D(a[0], x))
        if h == 'sin':
            return mul(f_cos(a[0]), D(a[0], x))
        if h == 'cos':
            return neg(mul(f_sin(a[0]), D(a[0], x)))
        if h == 'acos':
            return neg(mul(power(sub(ONE, mul(a[0], a[0])), Fraction(-1, 2)), D(a[0], x)))
        if h == 'asin':
            return mul(power(sub(ONE, mul(a[0], a[0])), Fraction(-1, 2)), D(a[0], x))
        if h == 'atan':
            return div(D(a[0], x), add(ONE, mul(a[0], a[0])))
        if h == 'atan2':
            y, z = a
            return div(sub(mul(z, D(y, x)), mul(y, D(z, x))), add(mul(y, y), mul(z, z)))
        if not contains(t, lambda s: s is x):
            return ZERO
    raise ValueError('cannot differentiate ' + show(t)[:200])
