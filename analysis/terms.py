"""Value numbers: hash-consed terms in an algebraic normal form.

numeric terms   num | atom | poly (sum of coefficient * product of atom**exponent)
boolean terms   true/false | atom | ordered decision node 'ite'
conditionals    'ite'(atom, hi, lo): ordered (by term id) and reduced, so two
                guarded values are equal iff they are the same object.
Equality of value numbers is object identity.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(100000)

_tab = {}
_all = []


class Term:
    __slots__ = ('op', 'args', 'id', 'sort', 'nites', 'fv')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, args=(), sort=None):
    key = (op,) + tuple(a.id if isinstance(a, Term) else ('c', a) for a in args)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = tuple(args)
        t.id = len(_all)
        t.sort = sort
        _all.append(t)
        _tab[key] = t
    elif t.sort is None and sort is not None:
        t.sort = sort
    return t


def num(x):
    if not isinstance(x, Fraction):
        x = Fraction(x)
    return mk('num', (x,), 'n')


ZERO, ONE = num(0), num(1)
TRUE, FALSE = mk('true', (), 'b'), mk('false', (), 'b')
NULL = mk('null', (), 'p')
UNDEF = mk('undef')
PI = mk('sym', ('PI',), 'n')
IMAG = mk('sym', ('I',), 'z')


def sym(name, sort='n'):
    return mk('sym', (name,), sort)


def string(s):
    return mk('str', (s,), 's')


def app(name, *args, sort=None):
    return mk('app', (name,) + args, sort)


def is_num(t):
    return isinstance(t, Term) and t.op == 'num'


def val(t):
    return t.args[0]


# ---------------------------------------------------------------- polynomials
# dict: monomial -> coeff ; monomial = tuple of (atom, exponent) sorted by atom id

def _poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args)
    return {((t, Fraction(1)),): Fraction(1)}


def _psort(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))


def _from(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    d2 = _cancel(d)
    if d2 is not None:
        return _from(d2)
    items = _psort(d)
    key = ('poly',) + tuple((tuple((a.id, e) for a, e in m), c) for m, c in items)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = 'poly'
        t.args = items
        t.id = len(_all)
        s = 'n'
        for m, c in items:
            for a, e in m:
                if a.sort == 'v':
                    s = 'v'
                elif a.sort == 'z' and s == 'n':
                    s = 'z'
        t.sort = s
        _all.append(t)
        _tab[key] = t
    return t


def _cancel(d):
    """x*S^-e + y*S^-e with x + y == c*S  becomes  c*S^(1-e)"""
    if len(d) < 2:
        return None
    neg = {}
    for m in d:
        for a, e in m:
            if e < 0 and a.op == 'poly':
                neg.setdefault((a, e), []).append(m)
    for (a, e), ms in neg.items():
        n = len(a.args)
        if n < 2 or len(ms) < n:
            continue
        # group by cofactor: try the ratio given by each monomial against a's first term
        q = {}
        for m in ms:
            q[tuple(x for x in m if x[0] is not a)] = m
        m0, c0 = a.args[0]
        for mq in list(q):
            dd = dict(mq)
            ok = True
            for x, ex in m0:
                dd[x] = dd.get(x, Fraction(0)) - ex
            co = {x: ex for x, ex in dd.items() if ex}
            r = d[q[mq]] / c0
            hit = []
            for mk_, ck in a.args:
                z = dict(co)
                for x, ex in mk_:
                    z[x] = z.get(x, Fraction(0)) + ex
                key = tuple(sorted(((x, ex) for x, ex in z.items() if ex), key=lambda y: y[0].id))
                if key not in q or d[q[key]] != r * ck:
                    ok = False
                    break
                hit.append(q[key])
            if ok:
                out = {m: c for m, c in d.items() if m not in hit}
                z = dict(co)
                if e + 1:
                    z[a] = e + 1
                key = tuple(sorted(((x, ex) for x, ex in z.items() if ex), key=lambda y: y[0].id))
                out[key] = out.get(key, Fraction(0)) + r
                return {m: c for m, c in out.items() if c}
    return None


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, Fraction(0)) + e
    for a, e in m2:
        d[a] = d.get(a, Fraction(0)) + e
    return d


def _norm_mono(d):
    """dict atom->exp  -> (coeff, monomial, extra poly factors)"""
    c = Fraction(1)
    extra = []
    exps = [a for a in d if a.op == 'app' and a.args[0] == 'exp']
    if len(exps) > 1 or any(d[a] != 1 for a in exps):
        s = ZERO
        for a in exps:
            s = add(s, mul(num(d.pop(a)), a.args[1]))
        e = f_exp(s)
        extra.append(e)
    if IMAG in d:
        e = d.pop(IMAG)
        if e.denominator == 1:
            r = int(e) % 4
            if r in (2, 3):
                c = -c
            if r in (1, 3):
                d[IMAG] = Fraction(1)
        else:
            d[IMAG] = e
    for a in list(d):
        # a polynomial base with a positive integer exponent is expanded
        if a.op == 'poly' and d[a].denominator == 1 and d[a] > 0 and len(a.args) <= 40:
            e = int(d.pop(a))
            p = ONE
            for _ in range(e):
                p = mul(p, a)
            extra.append(p)
    m = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))
    return c, m, extra


def _acc(res, d, c):
    k, m, extra = _norm_mono(d)
    c = c * k
    if not extra:
        res[m] = res.get(m, Fraction(0)) + c
        return
    t = _from({m: c})
    for x in extra:
        t = mul(t, x)
    for mm, cc in _poly(t).items():
        res[mm] = res.get(mm, Fraction(0)) + cc


LIFT = 600


def nites(t):
    if t.op != 'ite':
        return 0
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.op == 'ite' and x.id not in seen:
            seen.add(x.id)
            st.append(x.args[1])
            st.append(x.args[2])
    return len(seen)


def lift2(f, a, b):
    """apply f at the leaves of the two decision diagrams"""
    if nites(a) * max(1, nites(b)) > LIFT or nites(b) > LIFT:
        return None
    memo = {}

    def go(x, y):
        k = (x.id, y.id)
        if k in memo:
            return memo[k]
        if x.op != 'ite' and y.op != 'ite':
            r = f(x, y)
        else:
            at = _top(x, y)
            r = node(at, go(_cof(x, at, True), _cof(y, at, True)), go(_cof(x, at, False), _cof(y, at, False)))
        memo[k] = r
        return r
    return go(a, b)


def lift1(f, a):
    if nites(a) > LIFT:
        return None
    memo = {}

    def go(x):
        if x.id in memo:
            return memo[x.id]
        r = f(x) if x.op != 'ite' else node(x.args[0], go(x.args[1]), go(x.args[2]))
        memo[x.id] = r
        return r
    return go(a)


def liftn(f, args):
    """apply f at the leaves of several decision diagrams"""
    if not any(isinstance(a, Term) and a.op == 'ite' for a in args):
        return f(*args)
    if sum(nites(a) for a in args if isinstance(a, Term)) > LIFT:
        return None

    def go(xs):
        ites = [x for x in xs if isinstance(x, Term) and x.op == 'ite']
        if not ites:
            return f(*xs)
        at = _top(*ites)
        return node(at, go([_cof(x, at, True) if isinstance(x, Term) else x for x in xs]), go([_cof(x, at, False) if isinstance(x, Term) else x for x in xs]))
    return go(list(args))


def add(a, b):
    if a.op == 'ite' or b.op == 'ite':
        if a.op == 'throw' or b.op == 'throw':
            pass
        r = lift2(add, a, b)
        if r is not None:
            return r
    if a.op == 'throw':
        return a
    if b.op == 'throw':
        return b
    d = _poly(a)
    for m, c in _poly(b).items():
        d[m] = d.get(m, Fraction(0)) + c
    return _from(d)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == 'ite' or b.op == 'ite':
        r = lift2(mul, a, b)
        if r is not None:
            return r
    if a.op == 'throw':
        return a
    if b.op == 'throw':
        return b
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    pa, pb = _poly(a), _poly(b)
    if len(pa) * len(pb) > 20000:
        return mk('app', ('*', a, b) if a.id < b.id else ('*', b, a), 'n')
    # cancellation of a polynomial against its inverse
    for x, px, y, py in ((a, pa, b, pb), (b, pb, a, pa)):
        if len(px) > 1 and len(py) == 1:
            c0, base = _content(x)
            (m, c), = py.items()
            for at, e in m:
                if at is base and e < 0:
                    d = dict(m)
                    d[at] = e + 1
                    if not d[at]:
                        del d[at]
                    return _from({tuple(sorted(d.items(), key=lambda z: z[0].id)): c * c0})
    res = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            _acc(res, _mono_mul(m1, m2), c1 * c2)
    return _from(res)


def _content(p):
    """poly = coeff * normalised poly (first coefficient 1)"""
    c = p.args[0][1]
    if c == 1:
        return Fraction(1), p
    return c, _from({m: k / c for m, k in p.args})


def power(a, e):
    """e: Fraction"""
    if a.op == 'ite':
        r = lift1(lambda x: power(x, e), a)
        if r is not None:
            return r
    if a.op == 'throw':
        return a
    if e == 0:
        return ONE
    if e == 1:
        return a
    if a.op == 'num':
        v = a.args[0]
        if v == 0:
            return ZERO if e > 0 else app('div0')
        if e.denominator == 1:
            return num(v ** int(e))
        if e.denominator == 2 and v > 0:
            import math
            n, d = v.numerator, v.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return num(Fraction(rn, rd) ** int(e * 2))
            # pull out: n^(1/2) kept as atom of the number with integer part split
            k = int(e - Fraction(1, 2)) if e > 0 else int((e - Fraction(1, 2)).__floor__())
            rest = e - k
            return _from({((num(v), rest),): v ** k})
        return _from({((a, e),): Fraction(1)})
    p = _poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        cf = power(num(c), e) if c != 1 else ONE
        if c < 0 and e.denominator != 1:
            return _from({((a, e),): Fraction(1)})
        res = {}
        d = {}
        for at, ex in m:
            d[at] = d.get(at, Fraction(0)) + ex * e
        _acc(res, d, Fraction(1))
        return mul(cf, _from(res))
    if e.denominator == 1 and 0 < e <= 6 and len(p) <= 12:
        r = ONE
        for _ in range(int(e)):
            r = mul(r, a)
        return r
    c, base = _content(a)
    if c > 0 or e.denominator == 1:
        return mul(power(num(c), e), _from({((base, e),): Fraction(1)}))
    return mul(power(num(-c), e), _from({((neg(base), e),): Fraction(1)}))


def div(a, b):
    if b.op == 'num' and b.args[0] == 0:
        return app('div0', a)
    return mul(a, power(b, Fraction(-1)))


def idiv(a, b):
    def f(x, y):
        if x.op == 'num' and y.op == 'num' and y.args[0] != 0:
            q = abs(x.args[0]) // abs(y.args[0])
            return num(q if (x.args[0] < 0) == (y.args[0] < 0) else -q)
        if y is ONE:
            return x
        if y is ZERO:
            return app('idiv0', x, sort='n')         # no value: equal to nothing but itself
        return app('idiv', x, y, sort='n')
    return lift2(f, a, b) or f(a, b)


def imod(a, b):
    def f(x, y):
        if x.op == 'num' and y.op == 'num' and y.args[0] != 0:
            q = abs(x.args[0]) % abs(y.args[0])
            return num(q if x.args[0] >= 0 else -q)
        return app('mod', x, y, sort='n')
    return lift2(f, a, b) or f(a, b)


def _leading_neg(t):
    if t.op == 'num':
        return t.args[0] < 0
    if t.op == 'poly':
        return t.args[0][1] < 0
    return False


def un(name, a, f):
    if a.op == 'ite':
        r = lift1(lambda x: un(name, x, f), a)
        if r is not None:
            return r
    if a.op == 'throw':
        return a
    return f(a)


def f_sqrt(a):
    return power(a, Fraction(1, 2))


def _imag_split(a):
    """a = re + I*im as polynomials, or None when it has opaque complex atoms"""
    re, im = {}, {}
    for m, c in _poly(a).items():
        if any(at.sort == 'z' and at is not IMAG for at, _ in m):
            return None
        k = [(at, e) for at, e in m if at is IMAG]
        r = tuple(x for x in m if x[0] is not IMAG)
        if k:
            im[r] = im.get(r, 0) + c
        else:
            re[r] = re.get(r, 0) + c
    return _from(re), _from(im)


def f_exp(a):
    def f(x):
        if x is ZERO:
            return ONE
        s = _imag_split(x)
        if s and s[1] is not ZERO:
            return mul(f_exp(s[0]), add(f_cos(s[1]), mul(IMAG, f_sin(s[1]))))
        return mk('app', ('exp', x), 'n')
    return un('exp', a, f)


def f_cos(a):
    def f(x):
        if _leading_neg(x):
            x = neg(x)
        if x is ZERO:
            return ONE
        if x is PI:
            return num(-1)
        if x.op == 'app' and x.args[0] == 'acos':
            return x.args[1]
        return mk('app', ('cos', x), 'n')
    return un('cos', a, f)


def f_sin(a):
    def f(x):
        if x is ZERO or x is PI:
            return ZERO
        if _leading_neg(x):
            return neg(mk('app', ('sin', neg(x)), 'n'))
        return mk('app', ('sin', x), 'n')
    return un('sin', a, f)


def f_abs(a):
    def f(x):
        if x.op == 'num':
            return num(abs(x.args[0]))
        if big(x):
            return x
        if x.op == 'poly' and len(x.args) == 1:
            (m, c), = x.args
            if all(e.denominator == 1 and e.numerator % 2 == 0 or big(a) for a, e in m):
                return _from({m: abs(c)})
            return mul(num(abs(c)), mk('app', ('abs', _from({m: Fraction(1)})), 'n'))
        if _leading_neg(x):
            x = neg(x)
        return mk('app', ('abs', x), 'n')
    return un('abs', a, f)


def f_re(a):
    def f(x):
        s = _imag_split(x)
        return s[0] if s else mk('app', ('re', x), 'n')
    return un('re', a, f)


def f_im(a):
    def f(x):
        s = _imag_split(x)
        return s[1] if s else mk('app', ('im', x), 'n')
    return un('im', a, f)


def f_conj(a):
    def f(x):
        s = _imag_split(x)
        return sub(s[0], mul(IMAG, s[1])) if s else mk('app', ('conj', x), 'z')
    return un('conj', a, f)


def f_un(name, a):
    return un(name, a, lambda x: mk('app', (name, x), 'n'))


def f_minmax(name, a, b):
    def f(x, y):
        if x is y:
            return x
        if x.op == 'num' and y.op == 'num':
            return num((min if name == 'min' else max)(x.args[0], y.args[0]))
        d = _scale_lin(sub(x, y))
        if d[1] is not None and floor_of(d[1]) is not None:
            lt = b_lt(x, y)
            if lt in (TRUE, FALSE):
                return x if (lt is TRUE) == (name == 'min') else y
        xs = []
        for t in (x, y):
            if t.op == 'app' and t.args[0] == name:
                xs += t.args[1:]
            else:
                xs.append(t)
        xs = sorted(set(xs), key=lambda t: t.id)
        return mk('app', (name,) + tuple(xs), 'n')
    r = lift2(f, a, b)
    return r if r is not None else f(a, b)


# ------------------------------------------------------------------ booleans

def _top(*ts):
    return min((t.args[0] for t in ts if t.op == 'ite'), key=lambda a: a.id)


def _cof(t, at, v):
    if t.op != 'ite':
        return t
    if t.args[0] is at:
        return t.args[1] if v else t.args[2]
    return assume(t, at, v)


_asm = {}


def assume(t, at, v):
    """simplify decision diagram t knowing atom at has value v"""
    if t.op != 'ite':
        return t
    k = (t.id, at.id, v)
    r = _asm.get(k)
    if r is not None:
        return r
    a = t.args[0]
    if a is at:
        r = assume(t.args[1] if v else t.args[2], at, v)
    else:
        i = implied(at, v, a)
        if i is True:
            r = assume(t.args[1], at, v)
        elif i is False:
            r = assume(t.args[2], at, v)
        else:
            hi, lo = assume(t.args[1], at, v), assume(t.args[2], at, v)
            r = _raw(a, hi, lo)
    _asm[k] = r
    return r


def _raw(a, hi, lo):
    if hi is lo:
        return hi
    return mk('ite', (a, hi, lo), hi.sort if hi.sort == lo.sort else None)


def node(a, hi, lo):
    hi = assume(hi, a, True)
    lo = assume(lo, a, False)
    if a.op == 'eq' and hi is not lo and a.args[1] is ZERO and _vanishes(a.args[0], hi, lo):
        return lo
    return _raw(a, hi, lo)


def _factors(mono):
    """ids of the terms whose vanishing makes the monomial vanish"""
    r = set()
    for x, e in mono:
        if isinstance(e, (int, Fraction)) and e > 0:
            r.add(x.id)
            if x.op == 'poly':
                r |= set.intersection(*[_factors(mm) for mm, _ in x.args])
    return r


def _vanishes(m, hi, lo):
    """does lo - hi vanish whenever the product m does (every monomial of the
    difference contains every factor of m)"""
    if m.sort != 'n' or hi.sort != 'n' or lo.sort != 'n':
        return False
    if hi.op in ('throw', 'undef') or lo.op in ('throw', 'undef'):
        return False
    if hi.op == 'ite' or lo.op == 'ite':
        if hi.op == 'ite' and lo.op == 'ite':
            return hi.args[0] is lo.args[0] and _vanishes(m, hi.args[1], lo.args[1]) and _vanishes(m, hi.args[2], lo.args[2])
        if hi.op == 'ite':
            return False
        return _vanishes(m, hi, lo.args[1]) and _vanishes(m, hi, lo.args[2])
    if m.op == 'poly':
        if len(m.args) != 1:
            return False
        fs = []
        for x, e in m.args[0][0]:
            if not isinstance(e, (int, Fraction)):
                return False
            # a reciprocal never vanishes
            if e > 0:
                fs.append(x)
        if not fs:
            return False
    else:
        fs = [m]
    d = _poly(sub(lo, hi))
    for mono in d:
        pos = _factors(mono)
        if not all(f.id in pos for f in fs):
            return False
        if any(isinstance(e, (int, Fraction)) and e < 0 and x in fs for x, e in mono):
            return False
    return True


def implied(a, v, b):
    """value of atom b given atom a == v, or None"""
    if a is b:
        return v
    oa, ob = a.op, b.op
    if oa == 'eq' and ob == 'eq' and v:
        # x == c1  =>  x != c2
        for x, c in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
            for y, d in ((b.args[0], b.args[1]), (b.args[1], b.args[0])):
                if x is y and c is not d and const_like(c) and const_like(d) and not const_like(x):
                    return False
    ia, ib = _interval(a), _interval(b)
    if ia and ib and ia[0] is ib[0]:
        q, lo, los, hi, his = _atom_interval(a, v)
        _, lo2, los2, hi2, his2 = _atom_interval(b, True)
        # a-interval subset of b-interval -> True ; disjoint -> False
        if _subset((lo, los, hi, his), (lo2, los2, hi2, his2)):
            return True
        if _disjoint((lo, los, hi, his), (lo2, los2, hi2, his2)):
            return False
    return None


def _interval(a):
    if a.op in ('lt', 'le'):
        return (a.args[0],)
    if a.op == 'eq' and a.args[1].op == 'num' and a.args[0].op != 'num':
        return (a.args[0],)
    return None


INF = float('inf')


def _atom_interval(a, v):
    """lt(q,k): q<k ; le(q,k): integer q<=k"""
    q, k = a.args[0], a.args[1]
    if a.op == 'lt':
        kk = k.args[0]
        return (q, -INF, True, kk, True) if v else (q, kk, False, INF, True)
    if a.op == 'le':
        kk = k.args[0]
        return (q, -INF, True, kk, False) if v else (q, kk + 1, False, INF, True)
    kk = k.args[0]
    if v:
        return (q, kk, False, kk, False)
    return (q, -INF, True, INF, True)


def _subset(x, y):
    lo, los, hi, his = x
    lo2, los2, hi2, his2 = y
    okl = lo > lo2 or (lo == lo2 and (los or not los2)) or lo2 == -INF
    okh = hi < hi2 or (hi == hi2 and (his or not his2)) or hi2 == INF
    return okl and okh


def _disjoint(x, y):
    lo, los, hi, his = x
    lo2, los2, hi2, his2 = y
    if hi < lo2 or (hi == lo2 and (his or los2)):
        return True
    if hi2 < lo or (hi2 == lo and (his2 or los)):
        return True
    return False


def const_like(t):
    return t.op in ('num', 'str', 'true', 'false', 'null', 'enumc') or (t.op == 'app' and t.args[0] == 'const') or t.op == 'app' and t.args[0] == 'ij' and t.args[1].op == 'num' and t.args[2].op == 'num'


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op != 'ite':
        c = as_bool(c)
        if c in (TRUE, FALSE):
            return a if c is TRUE else b
    memo = {}

    def go(c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        k = (c.id, a.id, b.id)
        if k in memo:
            return memo[k]
        at = _top(*[x for x in (c, a, b) if x.op == 'ite'])
        r = node(at, go(_cof(c, at, True), _cof(a, at, True), _cof(b, at, True)),
                 go(_cof(c, at, False), _cof(a, at, False), _cof(b, at, False)))
        memo[k] = r
        return r
    return go(c, a, b)


def as_bool(t):
    """a term used as a condition -> decision diagram with true/false leaves"""
    if t in (TRUE, FALSE):
        return t
    if t.op == 'num':
        return TRUE if t.args[0] != 0 else FALSE
    if t.op == 'null':
        return FALSE
    if t.op == 'ite':
        return ite_bool(t)
    if t.op == 'throw':
        return t
    if t.sort in ('n',) and t.op in ('poly', 'sym', 'app'):
        return b_not(b_eq(t, ZERO))
    if t.sort == 'p' or t.op == 'ref':
        if t.op == 'ref':
            return TRUE
        return b_not(b_eq(t, NULL))
    return mk('ite', (t, TRUE, FALSE), 'b')


def ite_bool(t):
    return lift1(lambda x: as_bool(x) if x not in (TRUE, FALSE) else x, t) or t


def b_not(a):
    return ite(a, FALSE, TRUE)


def b_and(a, b):
    return ite(a, b, FALSE)


def b_or(a, b):
    return ite(a, TRUE, b)


def _scale_lin(p):
    """p (numeric term) = k*(q) + c  with q normalised; returns (k, q, c)"""
    d = _poly(p)
    c = d.pop((), Fraction(0))
    if not d:
        return None, None, c
    items = _psort(d)
    k = items[0][1]
    q = _from({m: x / k for m, x in items})
    return k, q, c


def ground(t):
    """floating-point value of a constant irrational expression, None when it is not one"""
    if t.op == 'num':
        return float(t.args[0])
    if t is PI:
        return 3.141592653589793
    if t.op == 'app' and t.args[0] == 'abs':
        g = ground(t.args[1])
        return None if g is None else abs(g)
    if t.op == 'poly':
        r = 0.0
        for m, c in t.args:
            x = float(c)
            for a, e in m:
                g = ground(a)
                if g is None or g <= 0:
                    return None
                x *= g ** float(e)
            r += x
        return r
    return None


def ground_sign(k, q, c):
    """sign of k*q + c when q is a constant and clearly away from zero"""
    g = ground(q)
    if g is None:
        return None
    x = float(k) * g
    r = x + float(c)
    if abs(r) <= 1e-9 * (abs(x) + abs(float(c))):
        return None
    return 1 if r > 0 else -1


def big(x):
    """symbols written +name stand for values that are at least one"""
    return x.op == 'sym' and isinstance(x.args[0], str) and x.args[0].startswith('+')


def floor_of(q):
    """a lower bound above zero of a product of large symbols, or None"""
    if big(q):
        return 1
    if q.op != 'poly' or len(q.args) != 1 or q.args[0][1] <= 0:
        return None
    if all(big(x) and isinstance(e, (int, Fraction)) and e > 0 for x, e in q.args[0][0]):
        return q.args[0][1]
    return None


def floor_sign(k, q, c):
    lb = floor_of(q)
    if lb is None:
        return None
    if k > 0 and k * lb + c > 0:
        return 1
    if k < 0 and k * lb + c < 0:
        return -1
    return None


def root_sign(q):
    """0: never negative, 1: always positive, None: unknown (roots and even
    powers only)"""
    if big(q):
        return 1
    if q.op != 'poly':
        return None
    res = 0
    for mono, c in q.args:
        if c <= 0:
            return None
        strict = True
        for x, e in mono:
            g = ground(x)
            if g is not None and g > 0 or big(x):
                continue
            if not isinstance(e, (int, Fraction)):
                return None
            e = Fraction(e)
            if e.denominator % 2 and e.numerator % 2:
                return None
            if e > 0:
                strict = False
        if strict:
            res = 1
    return res


def b_lt(a, b, integer=False):
    def f(x, y):
        if x.op == 'throw':
            return x
        if y.op == 'throw':
            return y
        k, q, c = _scale_lin(sub(x, y))
        if q is None:
            return TRUE if c < 0 else FALSE
        sg = ground_sign(k, q, c)
        if sg is not None:
            return TRUE if sg < 0 else FALSE
        sg = floor_sign(k, q, c)
        if sg is not None:
            return TRUE if sg < 0 else FALSE
        # k*q + c < 0
        r = -c / k
        rs = root_sign(q)
        if rs is not None:
            if k > 0 and c >= 0:
                return FALSE
            if k < 0 and (c < 0 or c == 0 and rs == 1):
                return TRUE
        if integer:
            if k > 0:       # q < r  <=> q <= ceil(r)-1
                import math
                return mk('ite', (mk('le', (q, num(math.ceil(r) - 1)), 'b'), TRUE, FALSE), 'b')
            import math     # q > r  <=> not q <= floor(r)
            return mk('ite', (mk('le', (q, num(math.floor(r))), 'b'), FALSE, TRUE), 'b')
        if k > 0:
            return mk('ite', (mk('lt', (q, num(r)), 'b'), TRUE, FALSE), 'b')
        # q > r: represent as lt(-q, -r) would break interval sharing; use gt atom = not (q<r) and q!=r
        return b_and(mk('ite', (mk('lt', (q, num(r)), 'b'), FALSE, TRUE), 'b'), b_not(b_eq(q, num(r))))
    r = lift2(f, a, b)
    return r if r is not None else f(a, b)


def b_le(a, b, integer=False):
    if integer:
        return b_lt(a, add(b, ONE), True)
    return b_not(b_lt(b, a))


def b_eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == 'throw':
            return x
        if y.op == 'throw':
            return y
        if const_like(x) and const_like(y):
            if x.op == y.op == 'enumc':
                return TRUE if x.args[1] == y.args[1] else FALSE
            if x.op == y.op:
                return FALSE
            if {x.op, y.op} <= {'num', 'enumc'}:
                vx = x.args[0] if x.op == 'num' else x.args[1]
                vy = y.args[0] if y.op == 'num' else y.args[1]
                return TRUE if vx == vy else FALSE
        if x.op == y.op == 'app' and x.args[0] == y.args[0] == 'ij':
            return b_and(b_eq(x.args[1], y.args[1]), b_eq(x.args[2], y.args[2]))
        if x.op == 'ref' and y is NULL or y.op == 'ref' and x is NULL:
            return FALSE
        if x in (TRUE, FALSE) or y in (TRUE, FALSE):
            if x in (TRUE, FALSE):
                x, y = y, x
            return as_bool(x) if y is TRUE else b_not(as_bool(x))
        if (x.op in ('poly', 'num') or y.op in ('poly', 'num')) and x.sort != 's' and y.sort != 's':
            k, q, c = _scale_lin(sub(x, y))
            if q is None:
                return TRUE if c == 0 else FALSE
            if ground_sign(k, q, c) is not None or floor_sign(k, q, c) is not None:
                return FALSE
            rs = root_sign(q)
            if rs is not None and (c == 0 and rs == 1 or k * c > 0):
                return FALSE
            return mk('ite', (mk('eq', (q, num(-c / k)), 'b'), TRUE, FALSE), 'b')
        if x.op == 'sym' and y.op == 'sym' and x.sort == 'n' and y.sort == 'n':
            k, q, c = _scale_lin(sub(x, y))
            return mk('ite', (mk('eq', (q, num(-c / k)), 'b'), TRUE, FALSE), 'b')
        if const_like(x) or (not const_like(y) and x.id > y.id):
            x, y = y, x
        return mk('ite', (mk('eq', (x, y), 'b'), TRUE, FALSE), 'b')
    r = lift2(f, a, b)
    return r if r is not None else f(a, b)


def enumc(q, v):
    return mk('enumc', (q, v), 'e')


def throw(T):
    return mk('throw', (T,))


# ---------------------------------------------------------------- traversal

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.op == 'poly':
            for m, c in x.args:
                for a, e in m:
                    st.append(a)
        else:
            for a in x.args:
                if isinstance(a, Term):
                    st.append(a)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def replace(t, mp, memo=None):
    """substitute terms (by identity) and renormalise"""
    memo = {} if memo is None else memo

    def go(x):
        if x in mp:
            return mp[x]
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == 'poly':
            r = ZERO
            ch = False
            for m, c in x.args:
                p = num(c)
                for a, e in m:
                    na = go(a)
                    if na is not a:
                        ch = True
                    p = mul(p, power(na, e))
                r = add(r, p)
            if not ch:
                r = x
        elif x.op == 'ite':
            r = ite(go_atom(x.args[0]), go(x.args[1]), go(x.args[2]))
        elif any(isinstance(a, Term) for a in x.args):
            na = tuple(go(a) if isinstance(a, Term) else a for a in x.args)
            if all(p is q for p, q in zip(na, x.args)):
                r = x
            else:
                r = rebuild(x.op, na, x.sort)
        else:
            r = x
        memo[x.id] = r
        return r

    def go_atom(a):
        r = go(a)
        return as_bool(r)
    return go(t)


REBUILD = {}


def rebuild(op, args, sort):
    if op == 'lt':
        return b_lt(args[0], args[1])
    if op == 'le':
        return b_le(args[0], args[1], True)
    if op == 'eq':
        return b_eq(args[0], args[1])
    if op == 'app' and args[0] in REBUILD:
        return REBUILD[args[0]](*args[1:])
    if op == 'app' and any(isinstance(a, Term) and a.op == 'ite' for a in args):
        r = liftn(lambda *xs: mk(op, (args[0],) + xs, sort), args[1:])
        if r is not None:
            return r
    return mk(op, args, sort)


REBUILD.update({'exp': f_exp, 'cos': f_cos, 'sin': f_sin, 'abs': f_abs, 're': f_re, 'im': f_im, 'conj': f_conj,
                'idiv': idiv, 'mod': imod,
                'min': lambda *a: __import__('functools').reduce(lambda x, y: f_minmax('min', x, y), a),
                'max': lambda *a: __import__('functools').reduce(lambda x, y: f_minmax('max', x, y), a)})


# ------------------------------------------------------------------ printing

_room = 0


def show(t, depth=12):
    """printed form; large values are cut"""
    global _room
    _room = 4000
    return _show(t, depth)


def _show(t, depth=12):
    global _room
    _room -= 1
    if not isinstance(t, Term):
        return str(t)
    if depth <= 0 or _room < 0 and t.op not in ('num', 'sym', 'str', 'enumc'):
        return '...'
    o = t.op
    if o == 'num':
        v = t.args[0]
        if v.denominator == 1:
            return str(v.numerator)
        return '%.12g' % float(v)
    if o == 'str':
        return '"%s"' % t.args[0]
    if o == 'sym':
        return t.args[0]
    if o == 'enumc':
        return t.args[0].split('::')[-1]
    if o == 'poly':
        parts = []
        for m, c in t.args:
            if _room < 0:
                parts.append('...')
                break
            f = []
            for a, e in m:
                s = _show(a, depth - 1)
                if a.op in ('poly',):
                    s = '(' + s + ')'
                f.append(s if e == 1 else '%s^%s' % (s, e))
            if not f:
                parts.append(_show(num(c)))
            elif c == 1:
                parts.append('*'.join(f))
            elif c == -1:
                parts.append('-' + '*'.join(f))
            else:
                parts.append(_show(num(c)) + '*' + '*'.join(f))
        return ' + '.join(parts).replace('+ -', '- ')
    if o == 'ite':
        if t.args[1] is TRUE and t.args[2] is FALSE:
            return _show(t.args[0], depth - 1)
        if t.args[1] is FALSE and t.args[2] is TRUE:
            return '!' + _show(t.args[0], depth - 1)
        return '(%s ? %s : %s)' % (_show(t.args[0], depth - 1), _show(t.args[1], depth - 1), _show(t.args[2], depth - 1))
    if o in ('lt', 'le', 'eq'):
        return '(%s %s %s)' % (_show(t.args[0], depth - 1), {'lt': '<', 'le': '<=', 'eq': '=='}[o], _show(t.args[1], depth - 1))
    if o == 'app':
        return '%s(%s)' % (t.args[0], ', '.join(_show(a, depth - 1) for a in t.args[1:]))
    if o == 'throw':
        return 'THROW'
    if not t.args:
        return o
    return '%s(%s)' % (o, ', '.join(_show(a, depth - 1) for a in t.args))


def leaves(t, cond=TRUE):
    """list of (condition, leaf)"""
    out = []

    def go(x, c):
        if x.op == 'ite':
            go(x.args[1], c + [(x.args[0], True)])
            go(x.args[2], c + [(x.args[0], False)])
        else:
            out.append((c, x))
    go(t, [])
    return out


def is_int(t):
    """value known to be an integer"""
    if t.op == 'num':
        return t.args[0].denominator == 1
    if t.op == 'app':
        if t.args[0] in ('trunc', 'ceil', 'floor', 'round', 'idiv', 'size'):
            return True
        if t.args[0] in ('min', 'max', 'mod'):
            return all(is_int(x) for x in t.args[1:])
    return False
