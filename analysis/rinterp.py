"""Random interpretation of value numbers.

Two value numbers with different normal forms may still denote the same value
(different but equivalent algebra, shifted summation index...).  Before such a
pair is reported, both terms are interpreted over random field values: every
uninterpreted atom gets a pseudo-random value derived from its name and the
interpretation of its arguments.  Agreement over many interpretations means
equal; a disagreement yields the distinguishing assignment for the report.
"""
import hashlib, math, cmath, random
from fractions import Fraction
from terms import *
from terms import _poly, _cof, _top


def _key(v):
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, (int, Fraction, float)):
        f = float(v)
        return ('n', '%.9g' % f if abs(f) > 1e-12 else '0')
    if isinstance(v, complex):
        if abs(v.imag) < 1e-12 * max(1.0, abs(v.real)):
            return _key(v.real)
        return ('z', '%.9g' % v.real, '%.9g' % v.imag)
    if isinstance(v, (list, tuple)):
        return ('l',) + tuple(_key(x) for x in v)
    if isinstance(v, dict):
        return ('d',) + tuple(sorted((repr(_key(k)), repr(_key(x))) for k, x in v.items()))
    return ('s', str(v))


class Thrown:
    def __eq__(s, o):
        return isinstance(o, Thrown)

    def __hash__(s):
        return 7

    def __repr__(s):
        return 'throw'


THROWN = Thrown()


INTERPRETED = {'sqrt', 'exp', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'log', 'log10', 'log2', 'sinh', 'cosh', 'tanh', 'pow', 'cbrt', 'abs', 'ceil', 'floor',
               'round', 'lround', 'trunc', 're', 'im', 'conj', 'atan2', 'min', 'max', 'idiv', 'mod', 'sum', 'exists', 'first', 'minover', 'maxover', 'lmap', 'arr',
               'zeros', 'push', 'upd', 'lstore', 'lpush', 'loop', 'ap', 'concat', 'obj'}


STEPPED = {'mod', 'idiv', 'trunc', 'ceil', 'floor', 'round', 'lround', 'min', 'max'}      # change with the size of a number
UNSCALED = {'exp', 'sinh', 'cosh', 'pow', 'tan', 'sum', 'exists', 'first', 'minover', 'maxover', 'lmap', 'arr', 'zeros', 'push', 'upd', 'lstore', 'lpush', 'loop', 'concat', 'obj'}


class Ev:
    scale = 1.0        # of the values of free numbers

    def __init__(self, seed, doms=None, ints=False):
        self.seed = seed
        self.doms = doms or {}
        self.memo = {}
        self.assign = {}
        self.env = {}
        self.rng = random.Random(seed)
        self.fover = {}         # free points pinned to a chosen value
        self.rec = None

    def free_key(self, t):
        """the free point that decides the value of t, or None"""
        if t is PI or t is IMAG or t.op not in ('sym', 'app') or (t.op == 'sym' and t.args[0] in self.doms):
            return None
        if t.op == 'app' and t.args[0] in INTERPRETED:
            return None
        self.rec = []
        try:
            self.memo.pop(t.id, None)
            self._ev(t)
            return self.rec[-1] if self.rec else None
        finally:
            self.rec = None

    def pin(self, key, v):
        self.fover[key] = v
        self.memo = {}

    def force(self, atom, want):
        """try to pick free points so that the atom gets the wanted truth value"""
        rng = self.rng
        if atom.op in ('lt', 'le', 'eq'):
            x, y = atom.args
            for p, q in ((x, y), (y, x)):
                if q.op == 'str' or p.sort == 's' or q.sort == 's':
                    k = self.free_key(p)
                    if k is not None:
                        self.pin(k, self.ev(q) if want else 'other%d' % rng.randrange(10 ** 6))
                        return True
            if x.op == 'str' or y.op == 'str':
                return False
            try:
                d = sub(x, y)
            except Exception:
                return False
            p = _poly(d)
            cand = []
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1:
                    at = m[0][0]
                    if any(z is at for m2 in p if m2 is not m for a2, e2 in m2 for z in subterms(a2)):
                        continue
                    cand.append((at, c))
            rng.shuffle(cand)
            for at, c in cand:
                k = self.free_key(at)
                if k is None:
                    continue
                rest = self.num(self.ev(sub(d, mul(num(c), at))))
                if isinstance(rest, (Thrown, complex)) or rest != rest:
                    continue
                if atom.op == 'eq':
                    if not want:
                        return True
                    delta = 0.0
                elif want:
                    delta = -rng.choice([1e-13, 1e-6, 0.3, 1.0, 2.0])
                else:
                    delta = rng.choice([0.0, 0.0, 1e-13, 1e-6, 0.4, 1.0, 2.0])
                v = (delta - rest) / float(c)
                self.pin(k, v)
                return True
            return False
        k = self.free_key(atom)
        if k is not None:
            self.pin(k, want)
            return True
        return False

    def h(self, *k):
        s = hashlib.blake2b(repr((self.seed,) + k).encode(), digest_size=8).digest()
        return int.from_bytes(s, 'big') / 2.0 ** 64

    def opaque(self, sort, *k):
        if self.rec is not None:
            self.rec.append(k)
        if k in self.fover:
            return self.fover[k]
        u = self.h(*k)
        if sort == 'b':
            return u < 0.5
        if sort == 's':
            return 'str%d' % int(u * 1e9)
        return (-2 + 4 * u) * self.scale

    def symval(self, t):
        name = t.args[0]
        if name in self.doms:
            d = self.doms[name]
            if callable(d):
                return d(self)
            r = d[int(self.h('dom', name) * len(d))]
            return r
        if isinstance(name, str) and name.startswith('+'):
            return 1 + 4 * self.h('big', name) * self.scale
        return self.opaque(t.sort, 'sym', name)

    def ev(self, t):
        if not isinstance(t, Term):
            return t
        if self.env:
            return self._ev(t)
        r = self.memo.get(t.id)
        if r is None:
            r = self._ev(t)
            self.memo[t.id] = r
        return r

    def num(self, v):
        if isinstance(v, bool):
            return 1.0 if v else 0.0
        if isinstance(v, (list, tuple)):
            return sum(self.num(x) * self.h('elt', i) for i, x in enumerate(v))
        if isinstance(v, dict):
            return self.opaque('n', 'dict', _key(v))
        if isinstance(v, (int, float, complex)):
            return v
        if isinstance(v, Thrown):
            return v
        return self.opaque('n', 'asnum', _key(v))

    def truth(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return v
        if isinstance(v, Thrown):
            return v
        if isinstance(v, (int, float, complex)):
            return v != 0
        return self.h('truth', _key(v)) < 0.5

    def cnt(self, t):
        v = self.ev(t)
        if isinstance(v, Thrown):
            return 0
        v = self.num(v)
        if isinstance(v, complex):
            v = v.real
        return max(0, min(40, int(round(v))))

    def with_bv(self, bv, k, t):
        old = self.env.get(bv.id)
        self.env[bv.id] = k
        try:
            return self._ev(t)
        finally:
            if old is None:
                del self.env[bv.id]
            else:
                self.env[bv.id] = old

    def _ev(self, t):
        o = t.op
        if t.id in self.env:
            return self.env[t.id]
        if self.env and not self.depends(t):
            return self.memo_ev(t)
        if o == 'num':
            return float(t.args[0])
        if o == 'sym' and t.args[0] == 'INF':
            return float('inf')
        if t is PI:
            return math.pi
        if t is IMAG:
            return 1j
        if o == 'sym':
            v = self.symval(t)
            self.assign[t.args[0]] = v
            return v
        if o == 'str':
            return t.args[0]
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'null':
            return 'NULL'
        if o == 'undef':
            return self.opaque('n', 'undef')
        if o == 'enumc':
            return float(t.args[1])
        if o == 'throw':
            return THROWN
        if o == 'poly':
            s = 0.0
            for m, c in t.args:
                p = float(c)
                for a, e in m:
                    v = self.num(self.ev(a))
                    if isinstance(v, Thrown):
                        return v
                    try:
                        if e.denominator == 1:
                            p = p * v ** int(e)
                        else:
                            if not isinstance(v, complex) and v < 0:
                                p = p * cmath.exp(float(e) * cmath.log(v))
                            else:
                                p = p * v ** float(e)
                    except (ZeroDivisionError, OverflowError):
                        return float('nan')
                s = s + p
            return s
        if o == 'ite':
            c = self.truth(t.args[0])
            if isinstance(c, Thrown):
                return c
            return self.ev(t.args[1] if c else t.args[2])
        if o in ('lt', 'le', 'eq'):
            a, b = self.ev(t.args[0]), self.ev(t.args[1])
            if isinstance(a, Thrown) or isinstance(b, Thrown):
                return THROWN
            if o == 'eq':
                if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
                    return abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b))
                return _key(a) == _key(b)
            a, b = self.num(a), self.num(b)
            if isinstance(a, complex):
                a = a.real
            if isinstance(b, complex):
                b = b.real
            return a < b if o == 'lt' else a <= b + 1e-9
        if o == 'app':
            return self.app(t)
        if o == 'ref':
            return ('ref', self.ev(t.args[0]))
        vs = tuple(_key(self.ev(a)) if isinstance(a, Term) else a for a in t.args)
        return self.opaque(t.sort, o, *vs)

    def memo_ev(self, t):
        r = self.memo.get(t.id)
        if r is None:
            env, self.env = self.env, {}
            try:
                r = self._ev(t)
            finally:
                self.env = env
            self.memo[t.id] = r
        return r

    _dep = {}

    def depends(self, t):
        k = t.id
        fv = Ev._dep.get(k)
        if fv is None:
            fv = frozenset(x.id for x in subterms(t) if x.op in ('sym', 'rec'))
            Ev._dep[k] = fv
        return any(i in fv for i in self.env)

    def app(self, t):
        h = t.args[0]
        a = t.args[1:]
        if h in ('sqrt', 'exp', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'log', 'log10', 'log2', 'sinh', 'cosh', 'tanh'):
            v = self.num(self.ev(a[0]))
            if isinstance(v, Thrown):
                return v
            try:
                r = getattr(cmath, h if h != 'log2' else 'log')(v)
                if h == 'log2':
                    r = r / math.log(2)
                if abs(r.imag) < 1e-13 * max(1.0, abs(r.real)):
                    return r.real
                return r
            except (ValueError, OverflowError, ZeroDivisionError):
                return float('nan')
        if h == 'pow':
            x, y = self.num(self.ev(a[0])), self.num(self.ev(a[1]))
            try:
                return cmath.exp(y * cmath.log(x)) if not isinstance(x, Thrown) else x
            except (ValueError, OverflowError):
                return float('nan')
        if h in ('cbrt', 'abs', 'ceil', 'floor', 'round', 'lround', 'trunc', 're', 'im', 'conj'):
            v = self.num(self.ev(a[0]))
            if isinstance(v, Thrown):
                return v
            if h == 'abs':
                return abs(v)
            if h == 're':
                return v.real if isinstance(v, complex) else v
            if h == 'im':
                return v.imag if isinstance(v, complex) else 0.0
            if h == 'conj':
                return v.conjugate() if isinstance(v, complex) else v
            if isinstance(v, complex):
                v = v.real
            if h == 'cbrt':
                return math.copysign(abs(v) ** (1 / 3), v)
            if v != v or abs(v) == float('inf'):
                return v
            return float({'ceil': math.ceil, 'floor': math.floor, 'trunc': math.trunc, 'round': lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1), 'lround': lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)}[h](v))
        if h == 'atan2':
            x, y = self.num(self.ev(a[0])), self.num(self.ev(a[1]))
            return math.atan2(x.real, y.real)
        if h in ('min', 'max'):
            vs = [self.num(self.ev(x)) for x in a]
            if any(isinstance(v, Thrown) for v in vs):
                return THROWN
            return (min if h == 'min' else max)(v.real if isinstance(v, complex) else v for v in vs)
        if h in ('idiv', 'mod'):
            x, y = self.num(self.ev(a[0])), self.num(self.ev(a[1]))
            try:
                if h == 'idiv':
                    return float(math.trunc(x.real / y.real + (1e-12 if x.real * y.real > 0 else -1e-12)))
                return x.real - y.real * math.trunc(x.real / y.real + (1e-12 if x.real * y.real > 0 else -1e-12))
            except (ZeroDivisionError, OverflowError, ValueError):
                return float('nan')
        if h == 'sum':
            n = self.cnt(a[1])
            s = 0.0
            for k in range(n):
                v = self.num(self.with_bv(a[0], float(k), a[2]))
                if isinstance(v, Thrown):
                    return v
                s = s + v
            return s
        if h in ('exists', 'first'):
            n = self.cnt(a[1])
            for k in range(n):
                v = self.with_bv(a[0], float(k), a[2])
                if v is True or (not isinstance(v, bool) and v):
                    return True if h == 'exists' else float(k)
            return False if h == 'exists' else float(n)
        if h in ('minover', 'maxover'):
            v = self.num(self.ev(a[0]))
            for k in range(self.cnt(a[2])):
                x = self.num(self.with_bv(a[1], float(k), a[3]))
                v = min(v.real, x.real) if h == 'minover' else max(v.real, x.real)
            return v
        if h == 'lmap':
            return [self.with_bv(a[0], float(k), a[2]) for k in range(self.cnt(a[1]))]
        if h == 'arr':
            n = self.num(self.ev(a[1]))
            kind = a[0].args[0]
            prs = a[2:]
            fill = None
            if len(prs) % 2 == 1:
                fill, prs = self.ev(prs[0]), prs[1:]
            if kind == 'seq' and not isinstance(n, (Thrown, complex)) and 0 <= n <= 200 and abs(n - round(n)) < 1e-9:
                out = [fill] * int(round(n))
                ok = True
                for i in range(0, len(prs), 2):
                    k = self.ev(prs[i])
                    if isinstance(k, float) and 0 <= k < len(out) and k == int(k):
                        out[int(k)] = self.ev(prs[i + 1])
                    else:
                        ok = False
                if ok:
                    return out
            d = {}
            for i in range(0, len(prs), 2):
                d[_key(self.ev(prs[i]))] = self.ev(prs[i + 1])
            d['fill'] = fill
            d['n'] = n
            return d
        if h == 'zeros':
            return 0.0
        if h == 'push':
            b = self.ev(a[0])
            if isinstance(b, list):
                return b + [self.ev(a[1])]
        if h == 'upd':
            b = self.ev(a[0])
            prs = a[1:]
            if isinstance(b, list):
                b = list(b)
                for i in range(0, len(prs), 2):
                    k = self.num(self.ev(prs[i]))
                    if 0 <= k.real < len(b):
                        b[int(round(k.real))] = self.ev(prs[i + 1])
                return b
            # v + sum (x - v[k]) e_k keeps linearity
            d = {}
            for i in range(0, len(prs), 2):
                kk = self.ev(prs[i])
                d[_key(kk)] = (kk, self.num(self.ev(prs[i + 1])))
            r = self.num(b)
            if isinstance(r, Thrown):
                return r
            for k in sorted(d, key=repr):
                kk, x = d[k]
                if isinstance(x, Thrown):
                    return x
                r = r + (x - self.idx(b, kk)) * self.h('upd', k)
            return r
        if h in ('lstore', 'lpush'):
            b = self.ev(a[0])
            bv, n = a[1], self.cnt(a[2])
            rest = a[3:]
            if h == 'lpush':
                out = list(b) if isinstance(b, list) else [b]
                for k in range(n):
                    for j in range(0, len(rest), 2):
                        g = self.with_bv(bv, float(k), rest[j])
                        if g is True:
                            out.append(self.with_bv(bv, float(k), rest[j + 1]))
                return out
            upd = {}
            old = mk('sym', ('old',), None)
            for k in range(n):
                for j in range(0, len(rest), 3):
                    if self.with_bv(bv, float(k), rest[j]) is True:
                        i = self.with_bv(bv, float(k), rest[j + 1])
                        ki = _key(i)
                        cur = upd[ki][1] if ki in upd else self.idx(b, i)
                        self.env[old.id] = cur
                        try:
                            x = self.with_bv(bv, float(k), rest[j + 2])
                        finally:
                            del self.env[old.id]
                        upd[ki] = (i, x)
            if isinstance(b, list):
                b = list(b)
                for i, x in upd.values():
                    k = self.num(i)
                    if 0 <= k.real < len(b):
                        b[int(round(k.real))] = x
                return b
            r = self.num(b)
            for k in sorted(upd, key=repr):
                i, x = upd[k]
                x = self.num(x)
                if isinstance(x, Thrown):
                    return x
                r = r + (x - self.num(self.idx(b, i))) * self.h('upd', k)
            return r
        if h == 'loop':
            return self.loop(t, a)
        if h == 'idx':
            return self.idx(self.ev(a[0]), self.ev(a[1]), t.sort)
        if h == 'size':
            v = self.ev(a[0])
            if isinstance(v, list):
                return float(len(v))
            if isinstance(v, dict) and 'n' in v:
                return v['n']
            k = ('size', _key(v))
            if self.rec is not None:
                self.rec.append(k)
            if k in self.fover:
                return max(0.0, float(round(self.fover[k])))
            return float(int(self.h('size', _key(v)) * 4) + (0 if self.h('size0') < 0.3 else 1))
        if h == 'ap':
            x, y = self.num(self.ev(a[0])), self.num(self.ev(a[1]))
            if isinstance(x, Thrown) or isinstance(y, Thrown):
                return THROWN
            return x * y
        if h == 'concat':
            vs = []
            for x in a:
                v = self.ev(x)
                vs.append(v if isinstance(v, str) else repr(_key(v)))
            return ''.join(vs)
        if h == 'obj':
            r = {}
            rest = a[1:]
            if len(rest) % 2:
                r['base'] = self.ev(rest[0])
                rest = rest[1:]
            for i in range(0, len(rest), 2):
                r[rest[i].args[0]] = self.ev(rest[i + 1])
            return r
        vs = []
        for x in a:
            v = self.ev(x) if isinstance(x, Term) else x
            if isinstance(v, Thrown):
                return v
            vs.append(_key(v))
        if h.startswith('.') and len(a) == 1:
            v = self.ev(a[0])
            if isinstance(v, dict) and h[1:] in v:
                return v[h[1:]]
        return self.opaque(t.sort, h, *vs)

    def loop(self, t, a):
        bv, n = a[0], self.cnt(a[1])
        parts = a[2:]
        m = len(parts) // 2
        recs = [mk('rec', (bv, -1 - j)) for j in range(m)]
        cur = [self.ev(parts[2 * j]) for j in range(m)]
        saved = dict(self.env)
        try:
            for k in range(n):
                for r, c in zip(recs, cur):
                    self.env[r.id] = c
                self.env[bv.id] = float(k)
                cur = [self._ev(parts[2 * j + 1]) for j in range(m)]
        finally:
            self.env = saved
        return cur[0]

    def idx(self, b, i, sort=None):
        if isinstance(b, list):
            k = self.num(i)
            if not isinstance(k, (Thrown, complex)) and 0 <= k < len(b) and abs(k - round(k)) < 1e-9:
                return b[int(round(k))]
            return self.opaque('n', 'oob', _key(i))
        if isinstance(b, dict):
            k = _key(i)
            if k in b:
                return b[k]
            if b.get('fill') is not None:
                return b['fill']
        if isinstance(b, (int, float, complex)) and sort in ('n', 'v', None, 'z'):
            return b * (self.h('phi', _key(i)) - 0.5) * 3
        return self.opaque(sort, 'idx', _key(b), _key(i))


def same(x, y, tol=1e-7):
    if isinstance(x, Thrown) or isinstance(y, Thrown):
        return isinstance(x, Thrown) and isinstance(y, Thrown)
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y) if isinstance(x, (bool, int, float)) and isinstance(y, (bool, int, float)) else False
    num_ = (int, float, complex)
    if isinstance(x, num_) and isinstance(y, num_):
        if x != x and y != y:
            return True
        if x != x or y != y:
            return None          # undefined on one side: no verdict from this sample
        return abs(x - y) <= tol * max(1e-6, abs(x), abs(y)) + 1e-11
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        if len(x) != len(y):
            return False
        r = True
        for p, q in zip(x, y):
            s = same(p, q, tol)
            if s is False:
                return False
            if s is None:
                r = None
        return r
    if isinstance(x, dict) and isinstance(y, dict):
        if set(map(repr, x)) != set(map(repr, y)):
            return False
        r = True
        for k in x:
            s = same(x[k], y[k], tol)
            if s is False:
                return False
        return r
    if x is None or y is None:
        return x is y
    return _key(x) == _key(y)


def thresholds(ts):
    """comparison atoms of one symbol with constants: candidate values per symbol, one
    in every cell the thresholds cut the line into"""
    th, strs = {}, {}
    for t in ts:
        for x in subterms(t):
            if x.op in ('lt', 'le', 'eq'):
                if any(z.op == 'str' for z in x.args):
                    continue
                try:
                    p = _poly(sub(x.args[0], x.args[1]))
                except Exception:
                    continue
                ms = [m for m in p if m != ()]
                if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and ms[0][0][0].op == 'sym':
                    th.setdefault(ms[0][0][0], set()).add(-p.get((), Fraction(0)) / p[ms[0]])
    out = {}
    for s, c in th.items():
        c = sorted(c)
        v = list(c) + [c[0] - 1, c[0] - Fraction(1, 10 ** 9), c[-1] + 1, c[-1] + Fraction(1, 10 ** 9), c[0] - 100, c[-1] + 100]
        v += [(x + y) / 2 for x, y in zip(c, c[1:])]
        out[s.args[0]] = [float(x) for x in v]
    return out


def conflicts(a, b, limit=150):
    """pairs of differing unguarded values in the two decision diagrams, each with the
    guard literals that select it"""
    out, seen = [], set()
    st = [(a, b, ())]
    while st and len(out) < limit and len(seen) < 20000:
        x, y, path = st.pop()
        if x is y or (x.id, y.id) in seen:
            continue
        seen.add((x.id, y.id))
        if x.op == 'ite' or y.op == 'ite':
            at = _top(x, y)
            for v in (True, False):
                st.append((_cof(x, at, v), _cof(y, at, v), path + ((at, v),)))
        else:
            out.append((x, y, path))
    return out


def witness(ev, x, y):
    return {'assignment': {n: repr(v) for n, v in sorted(ev.assign.items(), key=lambda z: str(z[0]))[:24]}, 'got': repr(x)[:300], 'expected': repr(y)[:300]}


def equal_random(a, b, doms=None, trials=60, pre=TRUE, budget=30.0):
    """(equal, witness): agreement of two value numbers over random interpretations
    satisfying the condition pre"""
    import time
    hit = 0
    t0 = time.time()
    th = thresholds([a, b, pre])
    pl = [l for l in leaves_paths(pre)] if pre is not TRUE else [()]
    for k in range(trials * (1 if pre is TRUE else 12)):
        ev = Ev(k + 1, doms)
        if k % 4:
            for s, c in th.items():
                if s not in ev.doms and ev.rng.random() < 0.6:
                    ev.pin(('sym', s), ev.rng.choice(c))
        try:
            if pre is not TRUE and ev.truth(pre) is not True:
                for at, w in ev.rng.choice(pl):
                    if ev.truth(at) is not w:
                        ev.force(at, w)
                if ev.truth(pre) is not True:
                    continue
            x, y = ev.ev(a), ev.ev(b)
        except RecursionError:
            return False, None
        s = same(x, y)
        if s is False:
            return False, witness(ev, x, y)
        if s is True:
            hit += 1
        if hit >= trials:
            break
        if time.time() - t0 > budget and hit >= 6:
            break
    heads = {x.args[0] for t in (a, b) for x in subterms(t) if x.op == 'app' and isinstance(x.args[0], str)}
    if heads & STEPPED and not heads & UNSCALED:
        for k in range(36):
            ev = Ev(104729 + k, doms)
            ev.scale = (7.0, 60.0, 3000.0)[k % 3]
            try:
                if pre is not TRUE and ev.truth(pre) is not True:
                    continue
                x, y = ev.ev(a), ev.ev(b)
            except RecursionError:
                return False, None
            if all(isinstance(z, (bool, int, float)) and abs(z) < 1e9 for z in (x, y)) and same(x, y, 1e-5) is False:
                return False, witness(ev, x, y)
    # guard-directed: aim at every pair of values the two decision diagrams disagree on
    for n, (u, v, path) in enumerate(conflicts(a, b)):
        if time.time() - t0 > 2 * budget:
            break
        for k in range(10):
            ev = Ev(7919 * (n + 1) + k, doms)
            try:
                lits = list(path) + list(ev.rng.choice(pl)) if k % 2 else list(ev.rng.choice(pl)) + list(path)
                for at, w in lits:
                    if ev.truth(at) is not w:
                        ev.force(at, w)
                if pre is not TRUE and ev.truth(pre) is not True:
                    continue
                x, y = ev.ev(a), ev.ev(b)
            except RecursionError:
                return False, None
            s = same(x, y)
            if s is False:
                return False, witness(ev, x, y)
            if s is True:
                hit += 1
                if all(ev.truth(at) is w for at, w in path):
                    break
    if hit == 0:
        return None, None
    return True, None


def leaves_paths(t, limit=40):
    out = []
    st = [(t, ())]
    while st and len(out) < limit:
        x, p = st.pop()
        if x is TRUE:
            out.append(p)
        elif x.op == 'ite':
            st.append((x.args[1], p + ((x.args[0], True),)))
            st.append((x.args[2], p + ((x.args[0], False),)))
        elif x is not FALSE:
            out.append(p + ((x, True),))
    return out or [()]
