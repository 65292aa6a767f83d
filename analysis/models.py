"""Models of library operations for the value-flow analysis."""
from terms import *
import terms as TM
from fractions import Fraction
import absint as A

MODELS = {}
METHODS = {}


def T(ip, e):
    return ip.term(ip.eval(e))


def K(ip, e, OT):
    """key of an associative container"""
    v = ip.eval(e)
    return ip.mkey(v) if isinstance(v, A.Ptr) and A.ptr_key(OT) else ip.term(v)


def _math1(f):
    def m(ip, e, want_lv=False):
        return f(ip.n_(T(ip, e['args'][0])))
    return m


def _u(name):
    def g(a):
        def h(x):
            if x.op == 'num' and name in ('ceil', 'floor', 'trunc', 'round', 'lround'):
                import math
                q = x.args[0]
                return num({'ceil': math.ceil, 'floor': math.floor, 'trunc': math.trunc}.get(name, lambda v: math.floor(abs(v) + Fraction(1, 2)) * (1 if v >= 0 else -1))(q))
            if name in ('ceil', 'floor', 'trunc', 'round', 'lround') and is_int(x):
                return x
            return mk('app', (name, x), 'n')
        return un(name, a, h)
    return _math1(g)


for ns in ('', 'std::'):
    MODELS[ns + 'sqrt'] = _math1(f_sqrt)
    MODELS[ns + 'exp'] = _math1(f_exp)
    MODELS[ns + 'cos'] = _math1(f_cos)
    MODELS[ns + 'sin'] = _math1(f_sin)
    MODELS[ns + 'fabs'] = _math1(f_abs)
    MODELS[ns + 'abs'] = _math1(f_abs)
    for n in ('tan', 'acos', 'asin', 'atan', 'log', 'log10', 'log2', 'ceil', 'floor', 'round', 'lround', 'sinh', 'cosh', 'tanh', 'cbrt', 'trunc', 'erf'):
        MODELS[ns + n] = _u(n)

    def _pow(ip, e, want_lv=False):
        a, b = ip.n_(T(ip, e['args'][0])), ip.n_(T(ip, e['args'][1]))

        def f(a, b):
            if b.op == 'num' and (b.args[0].denominator <= 4) and abs(b.args[0]) <= 12:
                return power(a, b.args[0])
            return mk('app', ('pow', a, b), 'n')
        r = lift2(f, a, b)
        return r if r is not None else f(a, b)
    MODELS[ns + 'pow'] = _pow

    def _hyp(ip, e, want_lv=False):
        ts = [ip.n_(T(ip, x)) for x in e['args']]
        s = ZERO
        for t in ts:
            s = add(s, mul(t, t))
        return f_sqrt(s)
    MODELS[ns + 'hypot'] = _hyp

    def _atan2(ip, e, want_lv=False):
        a, b = ip.n_(T(ip, e['args'][0])), ip.n_(T(ip, e['args'][1]))
        return mk('app', ('atan2', a, b), 'n')
    MODELS[ns + 'atan2'] = _atan2

    def _fpred(name):
        def m(ip, e, want_lv=False):
            return as_bool(mk('app', (name, T(ip, e['args'][0])), 'b'))
        return m
    for n in ('isfinite', 'isnan', 'isinf'):
        MODELS[ns + n] = _fpred(n)


def _real(ip, e, want_lv=False):
    return f_re(T(ip, e['args'][0]))


def _imag(ip, e, want_lv=False):
    return f_im(T(ip, e['args'][0]))


MODELS['std::real'] = _real
MODELS['std::imag'] = _imag
MODELS['std::conj'] = lambda ip, e, w=False: f_conj(T(ip, e['args'][0]))
MODELS['std::norm'] = lambda ip, e, w=False: (lambda z: add(mul(f_re(z), f_re(z)), mul(f_im(z), f_im(z))) if z.sort != 'n' else mul(z, z))(T(ip, e['args'][0]))


def _bind(ip, e, w=False):
    a = [ip.eval(x) for x in e['args']]
    return A.Obj('std::bind', None, dict({'#f': a[0], '#n': num(len(a) - 1)}, **{'#a%d' % i: x for i, x in enumerate(a[1:])}))


MODELS['std::bind'] = _bind


def _polar(ip, e, w=False):
    r = T(ip, e['args'][0])
    th = T(ip, e['args'][1]) if len(e['args']) > 1 else ZERO
    return mul(r, add(f_cos(th), mul(IMAG, f_sin(th))))


MODELS['std::polar'] = _polar


def _minmax(name):
    def m(ip, e, want_lv=False):
        a = e['args']
        if len(a) == 1:
            v = ip.eval(a[0])
            if isinstance(v, A.Arr) and v.concrete():
                r = None
                for i in range(int(val(v.size))):
                    x = ip.term(ip.arr_get(v, num(i)))
                    r = x if r is None else f_minmax(name, r, x)
                return r
            return mk('app', (name + 'of', ip.term(v)), 'n')
        x, y = ip.n_(T(ip, a[0])), ip.n_(T(ip, a[1]))
        return f_minmax(name, x, y)
    return m


MODELS['std::min'] = _minmax('min')
MODELS['std::max'] = _minmax('max')
MODELS['std::clamp'] = lambda ip, e, w=False: (lambda v, lo, hi: f_minmax('min', f_minmax('max', v, lo), hi))(*[ip.n_(T(ip, x)) for x in e['args'][:3]])
MODELS['fmin'] = MODELS['std::fmin'] = _minmax('min')
MODELS['fmax'] = MODELS['std::fmax'] = _minmax('max')


def _ident(ip, e, want_lv=False):
    if want_lv:
        return ip.lval(e['args'][0])
    return ip.eval(e['args'][0])


for n in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof'):
    MODELS[n] = _ident


def _swap(ip, e, w=False):
    a, b = ip.lval(e['args'][0]), ip.lval(e['args'][1])
    x, y = ip.read(a), ip.read(b)
    ip.write(a, y)
    ip.write(b, x)


MODELS['std::swap'] = _swap


def _make_ptr(ip, e, w=False):
    T_ = e.get('T', '')
    if e.get('inner') is not None:
        v = ip.eval(e['inner'])
        return A.Ptr(A.LV(ip.new_cell(v)))
    ta = e.get('targs') or []
    inner = ta[0] if ta else T_
    v = build(ip, inner, e['args'])
    return A.Ptr(A.LV(ip.new_cell(v)))


MODELS['std::make_unique'] = _make_ptr
MODELS['std::make_shared'] = _make_ptr


def build(ip, Tn, args):
    """construct Tn from argument nodes (constructor chosen by arity and type)"""
    Tn = Tn.replace('const ', '').strip()
    r = ip.p.rec.get(Tn)
    if r is not None and Tn not in ip.opaque:
        argv = None
        cands = [f for f in ip.p.fn.values() if f.get('cls') == Tn and f.get('ctor') and f.get('body') is not None and not f.get('copy')
                 and len(f['params']) >= len(args) and all('def' in p for p in f['params'][len(args):])]
        if len(args) == 1:
            at = node_type(args[0]).replace('const ', '').rstrip('& ')
            if at == Tn:
                cc = [f for f in ip.p.fn.values() if f.get('cls') == Tn and f.get('ctor') and f.get('copy') == 1 and f.get('body') is not None and not f.get('defaulted')]
                if not cc:
                    return ip.eval(args[0])
                cands = cc
        if len(cands) > 1:
            def score(f):
                s = 0
                for p, a in zip(f['params'], args):
                    pt = p['T'].replace('const ', '').rstrip('& ')
                    at = node_type(a).replace('const ', '').rstrip('& ')
                    if pt == at:
                        s += 2
                    elif pt in ip.p.bases(at):
                        s += 1
                    elif p['t'] == a.get('t'):
                        s += 1
                    else:
                        s -= 1
                return s
            cands.sort(key=score, reverse=True)
        if cands:
            f = cands[0]
            c = ip.new_cell(A.Obj(Tn, None, {}))
            a = ip.args_for(f['params'], args)
            ip.call_function(f, a, A.LV(c))
            return ip.st.store.get(c, UNDEF)
        if not args:
            return ip.default_value(Tn)
        if len(args) == 1:
            return ip.eval(args[0])
        c = ip.new_cell(A.Obj(Tn, None, {}))
        ip.default_fields(A.LV(c), r)
        o = ip.st.store[c]
        f = dict(o.f)
        for fd, a in zip(r['fields'], args):
            f[fd['name']] = ip.eval(a)
        return A.Obj(Tn, None, f)
    e = {'k': 'construct', 'T': Tn, 'q': '', 'usr': '', 'args': args, 'pm': 'v' * len(args), 'ln': args[0].get('ln', 0) if args else 0}
    if len(args) == 1 and node_type(args[0]).replace('const ', '').rstrip('& ') == Tn:
        return ip.eval(args[0])
    return ip.models.get('construct', construct)(ip, e, Tn)


def node_type(n):
    return n.get('T') or {'i': 'int', 'd': 'double', 'b': 'bool'}.get(n.get('t'), '')


def is_string_t(t):
    return t.startswith('std::basic_string<') or t.startswith('std::__cxx11::basic_string<') or t in ('std::string',)


def construct(ip, e, t):
    """constructor of a library class"""
    args = e['args']
    if is_string_t(t):
        if not args:
            return string('')
        v = ip.eval(args[0])
        if len(args) == 2 and isinstance(v, A.It):
            return mk('app', ('strrange', ip.term(v), T(ip, args[1])), 's')
        if len(args) == 2 and is_num(ip.term(v)):
            return mk('app', ('strrep', ip.term(v), T(ip, args[1])), 's')
        return v
    if t.startswith('std::complex'):
        vs = [ip.n_(T(ip, a)) for a in args]
        if not vs:
            return ZERO
        if len(vs) == 1:
            return vs[0]
        return add(vs[0], mul(IMAG, vs[1]))
    if t.startswith(('std::pair<', 'std::tuple<')):
        vs = [ip.eval(a) for a in args]
        if len(vs) == 1 and isinstance(vs[0], A.Obj):
            return vs[0]
        if t.startswith('std::pair<'):
            if not vs:
                return ip.default_value(t)
            return A.Obj('std::pair', None, {'first': vs[0], 'second': vs[1]} if len(vs) == 2 else {})
        return A.Obj('std::tuple', None, {'get%d' % i: v for i, v in enumerate(vs)})
    if t.startswith(('std::vector<', 'std::deque<', 'std::list<')):
        return seq_construct(ip, e, t, args)
    if t.startswith(('std::map<', 'std::unordered_map<', 'std::set<', 'std::unordered_set<', 'std::multimap<')):
        kind = 'map' if 'map<' in t.split('<')[0] + '<' else 'set'
        if not args:
            return A.Arr(kind, None, ZERO, {}, None)
        v = ip.eval(args[0])
        if isinstance(v, A.Arr) and v.kind == kind:
            return v
        if isinstance(v, A.It) and len(args) >= 2:
            w = ip.eval(args[1])
            c = ip.read(v.lv)
            if kind == 'set' and v.i is ZERO and isinstance(w, A.It) and w.i is A.END_I:
                if isinstance(c, A.Arr) and c.concrete():
                    return A.Arr('set', None, c.size, {ip.term(x): x for x in (ip.arr_get(c, num(i)) for i in range(int(val(c.size))))}, None)
                return mk('app', ('setof', ip.term(c)))
        if isinstance(v, A.Arr) and v.concrete():
            d = {}
            for i in range(int(val(v.size))):
                x = ip.arr_get(v, num(i))
                if kind == 'map':
                    k = ip.term(ip.getc(x, ('f', 'first')))
                    if k not in d:
                        d[k] = ip.getc(x, ('f', 'second'))
                else:
                    d[ip.term(x)] = x
            return A.Arr(kind, None, num(len(d)), d, None)
        return mk('app', ('new:' + A.strip_t(t), ip.term(v)))
    if t.startswith('std::initializer_list<'):
        v = ip.eval(args[0])
        return v
    if t.startswith(('std::unique_ptr<', 'std::shared_ptr<', 'std::function<', 'std::optional<', 'std::reference_wrapper<')):
        if not args:
            return ip.default_value(t)
        if t.startswith('std::optional<'):
            v = ip.eval(args[0])
            if isinstance(v, A.Term) and v.op == 'sym' and str(v.args[0]).endswith('nullopt'):
                return mk('app', ('nullopt',))
            return v
        v = ip.eval(args[0])
        return v
    if t.startswith('std::array<') and len(args) == 1:
        return ip.eval(args[0])
    if t in ('mfem::Vector', 'mfem::GridFunction', 'mfem::ParGridFunction') or t.startswith('mfem::Array<'):
        if not args:
            return A.Arr('seq', None, ZERO, {}, None)
        v = ip.eval(args[0])
        if isinstance(v, A.Ptr) and v.off is not None and len(args) >= 2:
            n = T(ip, args[1])
            if v.off is ZERO:
                arr = ip.read(v.lv)
                if isinstance(arr, A.Arr) and arr.size is n:
                    return arr
            return slice_of(ip, v, n)
        if isinstance(v, A.Arr) and node_type(args[0]).startswith('std::initializer_list'):
            return v
        if isinstance(v, A.Arr) and len(args) == 1:
            return v
        if isinstance(v, A.Arr) and len(args) == 2:
            return v
        tt = ip.term(v)
        at = args[0].get('t')
        if at == 'i' or at == 'd' or (isinstance(v, A.Term) and v.sort == 'n'):
            return A.Arr('seq', None, ip.n_(tt), {}, UNDEF)
        if tt.sort == 'p' and len(args) >= 2:
            n = T(ip, args[1])
            return mk('app', ('view', tt, n), 'v')
        if t != 'mfem::Vector' and not t.startswith('mfem::Array<'):
            # grid function on a space
            ts = tuple(ip.term(ip.eval(a)) for a in args)
            return mk('app', ('new:' + t,) + ts, 'v')
        return v if len(args) == 1 else mk('app', ('new:' + t, tt) + tuple(T(ip, a) for a in args[1:]), 'v')
    if t.startswith('mfem::DenseMatrix'):
        ts = [ip.eval(a) for a in args]
        if args and args[0].get('t') == 'i':
            n = ip.term(ts[0])
            m = ip.term(ts[1]) if len(ts) > 1 else n
            return A.Arr('seq', None, mk('app', ('dim', n, m), 'n'), {}, ZERO)
        if len(ts) == 1:
            return ts[0]
    if t.startswith('Eigen::'):
        ts = [ip.eval(a) for a in args if not ('Stride' in a.get('T', '') and not a.get('args'))]
        if len(ts) >= 2 and all(isinstance(x, A.Term) and x.sort == 'n' for x in ts) and ('3, 1' in t or '2, 1' in t):
            return A.Arr('seq', None, num(len(ts)), {num(i): x for i, x in enumerate(ts)}, None)
        if len(ts) == 1 and not (isinstance(ts[0], A.Term) and ts[0].sort == 'n'):
            return ts[0]
        if t.startswith('Eigen::Map<') and len(ts) in (2, 3) and isinstance(ts[0], A.Ptr) and (len(ts) == 2 or ts[2] is ONE):
            p = ts[0]
            if p.off is not None and is_num(p.off) and is_num(ts[1]) and len(p.lv.alts) == 1:
                return A.View(p.lv, p.off, ts[1])
        if t.startswith('Eigen::Matrix<double, -1, 1,'):
            if not ts:
                return A.Arr('seq', None, ZERO, {}, None)
            if len(ts) == 1:
                return A.Arr('seq', None, ts[0], {}, A.UNDEF)
        if t.startswith('Eigen::Matrix<double, -1, -1,') and len(ts) in (0, 2):
            ts = ts or [ZERO, ZERO]
            return A.Arr('seq', None, mk('app', ('dim', ts[0], ts[1]), 'n'), {}, A.UNDEF)
    vals = []
    pm = e.get('pm', '')
    for i, a in enumerate(args):
        vals.append(ip.eval(a))
    if ip.st.dead:
        return throw('dead')
    ts = tuple(ip.term(v) for v in vals)
    ip.event('new:' + A.strip_t(t), None, list(ts), e['ln'])
    r = mk('app', ('new:' + A.strip_t(t),) + ts, A.sort_of('c', t))
    return r


MODELS['construct'] = construct


def slice_of(ip, p, n):
    """n elements starting at pointer p"""
    base = ip.read(p.lv)
    if is_num(n) and int(val(n)) <= A.MAX_UNROLL:
        return A.Arr('seq', None, n, {num(i): ip.getc(base, ('i', add(p.off, num(i)))) for i in range(int(val(n)))})
    return mk('app', ('slice', ip.term(base), p.off, n), 'v')


def seq_construct(ip, e, t, args):
    inner = t[t.index('<') + 1:]
    if not args:
        return A.Arr('seq', None, ZERO, {}, None)
    v = ip.eval(args[0])
    if e.get('il') or node_type(args[0]).startswith('std::initializer_list'):
        return v
    at = args[0].get('t')
    if isinstance(v, A.It) and len(args) >= 2:
        w = ip.eval(args[1])
        c = ip.read(v.lv)
        if v.i is ZERO and isinstance(w, A.It) and w.i is A.END_I and not (isinstance(c, A.Arr) and c.kind == 'set'):
            return c
        r = whole(ip, v, w)
        xs = range_items(ip, *r[1:]) if r is not None else None
        if xs is not None:
            return A.Arr('seq', None, num(len(xs)), {num(i): x for i, x in enumerate(xs)}, None)
        return mk('app', ('range', ip.term(c), v.i, w.i if isinstance(w, A.It) else ip.term(w)), 'v')
    if isinstance(v, A.Ptr) and v.off is not None and len(args) >= 2:
        w = ip.eval(args[1])
        if isinstance(w, A.Ptr) and w.off is not None:
            n = sub(w.off, v.off)
            if v.off is ZERO:
                arr = ip.read(v.lv)
                if isinstance(arr, A.Arr) and arr.size is n:
                    return arr
            return slice_of(ip, v, n)
    if len(args) == 1 and (isinstance(v, A.Arr) or isinstance(v, A.Term) and v.sort == 'v'):
        return v
    if at == 'i' or (isinstance(v, A.Term) and v.sort == 'n'):
        n = ip.n_(ip.term(v))
        if len(args) >= 2 and not node_type(args[1]).replace('const ', '').startswith('std::allocator'):
            fill = ip.eval(args[1])
        else:
            it = inner.split(',')[0].strip()
            if it in ('double', 'int', 'float', 'unsigned long', 'long', 'size_t', 'unsigned int'):
                fill = ZERO
            elif it == 'bool':
                fill = FALSE
            elif it.endswith('*'):
                fill = NULL
            elif it.startswith('std::complex'):
                fill = ZERO
            else:
                full = inner
                fill = ip.default_value(first_targ(t))
        return A.Arr('seq', None, n, {}, fill)
    return v


def first_targ(t):
    s = t[t.index('<') + 1:]
    d = 0
    for i, c in enumerate(s):
        if c == '<':
            d += 1
        elif c == '>':
            if d == 0:
                return s[:i].strip()
            d -= 1
        elif c == ',' and d == 0:
            return s[:i].strip()
    return s


def _to_string(ip, e, w=False):
    t = ip.n_(T(ip, e['args'][0]))

    def f(x):
        if x.op == 'num' and x.args[0].denominator == 1 and e['args'][0].get('t') == 'i':
            return string(str(x.args[0]))
        return mk('app', ('to_string', x), 's')
    return lift1(f, t) if t.op == 'ite' else f(t)


MODELS['std::to_string'] = _to_string


def _make_pair(ip, e, w=False):
    return A.Obj('std::pair', None, {'first': ip.eval(e['args'][0]), 'second': ip.eval(e['args'][1])})


MODELS['std::make_pair'] = _make_pair
MODELS['std::make_tuple'] = lambda ip, e, w=False: A.Obj('std::tuple', None, {'get%d' % i: ip.eval(a) for i, a in enumerate(e['args'])})


def _get(ip, e, w=False):
    lv = ip.lval(e['args'][0])
    v = ip.read(lv)
    ta = e.get('targs') or ['0']
    try:
        i = int(str(ta[0]).rstrip('UL'))
    except ValueError:
        return mk('app', ('get:' + str(ta[0]), ip.term(v)))
    if isinstance(v, A.Arr):
        r = lv.ext(('i', num(i)))
    elif isinstance(v, A.Obj) and v.cls == 'std::pair':
        r = lv.ext(('f', ('first', 'second')[i]))
    else:
        r = lv.ext(('f', 'get%d' % i))
    return r if w else ip.read(r)


MODELS['std::get'] = _get


def _begin(ip, e, w=False):
    return A.It(ip.lval(e['args'][0]), ZERO)


def _end(ip, e, w=False):
    lv = ip.lval(e['args'][0])
    return end_of(ip, lv)


def end_of(ip, lv):
    v = ip.read(lv)
    if isinstance(v, A.Arr) and v.kind == 'seq' and is_num(v.size):
        return A.It(lv, v.size)
    return A.It(lv, A.END_I)


for n in ('std::begin', 'std::cbegin'):
    MODELS[n] = _begin
for n in ('std::end', 'std::cend'):
    MODELS[n] = _end


def whole(ip, a, b):
    """(lv, value) when [a,b) is a full container or a concrete subrange"""
    if isinstance(a, A.It) and isinstance(b, A.It):
        v = ip.read(a.lv)
        n = ip.size_of(v)
        lo = a.i
        hi = n if b.i is A.END_I else b.i
        return a.lv, v, lo, hi
    if isinstance(a, A.Ptr) and isinstance(b, A.Ptr) and a.off is not None and b.off is not None:
        return a.lv, ip.read(a.lv), a.off, b.off
    return None


def _fill(ip, e, w=False):
    a, b = ip.eval(e['args'][0]), ip.eval(e['args'][1])
    x = ip.eval(e['args'][2])
    x = ip.read(x) if isinstance(x, A.LV) else x
    r = whole(ip, a, b)
    if r is None:
        return ip.external_call(e, None, w)
    lv, v, lo, hi = r
    n = ip.size_of(v)
    if lo is ZERO and hi is n:
        ip.write(lv, A.Arr('seq', None, n, {}, x))
        return None
    if is_num(lo) and is_num(hi) and val(hi) - val(lo) <= A.MAX_UNROLL:
        for i in range(int(val(lo)), int(val(hi))):
            ip.write(lv.ext(('i', num(i))), x)
        return None
    ip.write(lv, mk('app', ('setsub', ip.term(v), lo, sub(hi, lo), ip.term(x)), 'v'))


MODELS['std::fill'] = _fill


def _copy(ip, e, w=False):
    a, b, d = [ip.eval(x) for x in e['args'][:3]]
    r = whole(ip, a, b)
    if r is None or not isinstance(d, (A.Ptr, A.It)):
        return ip.external_call(e, None, w)
    lv, v, lo, hi = r
    dlv = d.lv
    off = d.off if isinstance(d, A.Ptr) else d.i
    n = sub(hi, lo)
    if is_num(n) and int(val(n)) <= A.MAX_UNROLL:
        for i in range(int(val(n))):
            ip.write(dlv.ext(('i', add(off, num(i)))), ip.getc(v, ('i', add(lo, num(i)))))
        return None
    src = ip.term(v)
    if not (lo is ZERO and hi is ip.size_of(v)):
        src = mk('app', ('slice', src, lo, n), 'v')
    dv = ip.read(dlv)
    if off is ZERO and ip.size_of(dv) is n:
        ip.write(dlv, src)
        return None
    ip.write(dlv, mk('app', ('setsub', ip.term(dv), off, n, src), 'v'))
    return None


MODELS['std::copy'] = _copy


def _copy_n(ip, e, w=False):
    a, n, d = ip.eval(e['args'][0]), T(ip, e['args'][1]), ip.eval(e['args'][2])
    if isinstance(a, A.Ptr) and a.off is not None:
        b = A.Ptr(a.lv, add(a.off, n))
    elif isinstance(a, A.It):
        b = A.It(a.lv, add(a.i, n))
    else:
        return ip.external_call(e, None, w)
    e2 = dict(e)
    r = whole(ip, a, b)
    lv, v, lo, hi = r
    dlv, off = d.lv, (d.off if isinstance(d, A.Ptr) else d.i)
    src = ip.term(v)
    if not (lo is ZERO and hi is ip.size_of(v)):
        src = mk('app', ('slice', src, lo, n), 'v')
    dv = ip.read(dlv)
    ip.write(dlv, mk('app', ('setsub', ip.term(dv), off, n, src), 'v') if not (off is ZERO and ip.size_of(dv) is n) else src)


MODELS['std::copy_n'] = _copy_n


def _memcpy(ip, e, w=False):
    d, s = ip.eval(e['args'][0]), ip.eval(e['args'][1])
    n = T(ip, e['args'][2])
    if isinstance(d, A.Ptr) and isinstance(s, A.Ptr) and d.off is not None and s.off is not None:
        cnt = div(n, num(8))
        if is_num(cnt) and val(cnt) <= 256 and is_num(s.off) and is_num(d.off) and val(cnt) == int(val(cnt)):
            sv = ip.read(s.lv)
            if isinstance(sv, A.Arr):
                xs = [ip.getc(sv, ('i', add(s.off, num(i)))) for i in range(int(val(cnt)))]
                for i, x in enumerate(xs):
                    ip.write(d.lv.ext(('i', add(d.off, num(i)))), x)
                return d
        src = ip.term(ip.read(s.lv))
        if not (s.off is ZERO and ip.size_of(ip.read(s.lv)) is cnt):
            src = mk('app', ('slice', src, s.off, cnt), 'v')
        dv = ip.read(d.lv)
        ip.write(d.lv, mk('app', ('setsub', ip.term(dv), d.off, cnt, src), 'v'))
        return d
    return ip.external_call(e, None, w)


MODELS['memcpy'] = MODELS['std::memcpy'] = _memcpy


def _memset(ip, e, w=False):
    d, c, n = ip.eval(e['args'][0]), T(ip, e['args'][1]), T(ip, e['args'][2])
    cnt = div(n, num(8))
    if isinstance(d, A.Ptr) and d.off is not None and c is ZERO and is_num(cnt) and val(cnt) <= 256 and is_num(d.off) and val(cnt) == int(val(cnt)):
        for i in range(int(val(cnt))):
            ip.write(d.lv.ext(('i', add(d.off, num(i)))), ZERO)
        return d
    return ip.external_call(e, None, w)


MODELS['memset'] = MODELS['std::memset'] = _memset


def _accumulate(ip, e, w=False):
    a, b = ip.eval(e['args'][0]), ip.eval(e['args'][1])
    init = ip.eval(e['args'][2])
    r = whole(ip, a, b)
    f = ip.eval(e['args'][3]) if len(e['args']) > 3 else None
    if r is None:
        return ip.external_call(e, None, w)
    lv, v, lo, hi = r
    n = sub(hi, lo)
    if is_num(n) and int(val(n)) <= A.MAX_UNROLL and is_num(lo):
        acc = init
        for i in range(int(val(n))):
            x = ip.getc(v, ('i', add(lo, num(i))))
            acc = add(ip.term(acc), ip.term(x)) if f is None else ip.invoke(f, [acc, x])
        return acc
    if f is None:
        ip.depth += 1
        bv = sym('i%d' % ip.depth, 'n')
        x = ip.term(ip.getc(v, ('i', add(lo, bv))))
        r = add(ip.term(init), ip.sum_over(bv, n, x))
        ip.depth -= 1
        return r
    return ip.external_call(e, None, w)


MODELS['std::accumulate'] = _accumulate


def _iota(ip, e, w=False):
    a, b = ip.eval(e['args'][0]), ip.eval(e['args'][1])
    v0 = T(ip, e['args'][2])
    r = whole(ip, a, b)
    if r is None:
        return ip.external_call(e, None, w)
    lv, v, lo, hi = r
    n = sub(hi, lo)
    if is_num(n) and int(val(n)) <= A.MAX_UNROLL:
        for i in range(int(val(n))):
            ip.write(lv.ext(('i', add(lo, num(i)))), add(v0, num(i)))
        return None
    ip.depth += 1
    bv = sym('i%d' % ip.depth, 'n')
    ip.depth -= 1
    ip.write(lv, mk('app', ('lmap', bv, n, add(v0, bv)), 'v'))


MODELS['std::iota'] = _iota


def _find_alg(ip, e, w=False):
    a, b = ip.eval(e['args'][0]), ip.eval(e['args'][1])
    x = ip.eval(e['args'][2])
    r = whole(ip, a, b)
    if r is None:
        return ip.external_call(e, None, w)
    lv, v, lo, hi = r
    n = sub(hi, lo)
    if is_num(n) and int(val(n)) <= A.MAX_UNROLL and is_num(lo):
        found = FALSE
        pos = hi
        for i in reversed(range(int(val(n)))):
            c = ip.equal(ip.getc(v, ('i', add(lo, num(i)))), x)
            pos = ite(c, add(lo, num(i)), pos)
            found = b_or(found, c)
        it = A.It(lv, pos, None)
        return it
    t = mk('app', ('find', ip.term(v), ip.term(x)), 'n')
    it = A.It(lv, t, None)
    it.found = as_bool(mk('app', ('has', ip.term(v), ip.term(x)), 'b'))
    return it


MODELS['std::find'] = _find_alg


def _each(kind):
    def m(ip, e, w=False):
        a, b = ip.eval(e['args'][0]), ip.eval(e['args'][1])
        f = ip.eval(e['args'][2])
        r = whole(ip, a, b)
        if r is None:
            return ip.external_call(e, None, w)
        lv, v, lo, hi = r
        n = sub(hi, lo)
        if is_num(n) and int(val(n)) <= A.MAX_UNROLL and is_num(lo):
            acc = TRUE if kind == 'all' else FALSE
            for i in range(int(val(n))):
                x = lv.ext(('i', add(lo, num(i))))
                y = ip.invoke(f, [x])
                if kind == 'each':
                    continue
                t = ip.truth(y)
                acc = b_and(acc, t) if kind == 'all' else b_or(acc, t)
            if kind == 'none':
                acc = b_not(acc)
            return None if kind == 'each' else acc
        return ip.external_call(e, None, w)
    return m


MODELS['std::all_of'] = _each('all')
MODELS['std::any_of'] = _each('any')
MODELS['std::none_of'] = _each('none')
MODELS['std::for_each'] = _each('each')


def _distance(ip, e, w=False):
    a, b = ip.eval(e['args'][0]), ip.eval(e['args'][1])
    if isinstance(a, A.It) and isinstance(b, A.It):
        hi = ip.size_of(ip.read(b.lv)) if b.i is A.END_I else b.i
        return sub(hi, a.i)
    return mk('app', ('f:std::distance', ip.term(a), ip.term(b)), 'n')


MODELS['std::distance'] = _distance

# ---------------------------------------------------------------- methods


def meth(*names):
    def d(f):
        for n in names:
            METHODS[n] = f
        return f
    return d


@meth('size', 'Size')
def m_size(ip, e, objlv, w):
    o = ip.read(objlv)
    if isinstance(o, (A.Arr, A.VIte)):
        return ip.size_of(o)
    if isinstance(o, A.Ptr):
        return ip.size_of(ip.read(o.lv))
    t = ip.term(o)
    if t.sort == 'v' or isinstance(o, A.Term):
        if t.op == 'str':
            return num(len(t.args[0]))
        return ip.size_of(t)
    return NotImplemented


@meth('empty')
def m_empty(ip, e, objlv, w):
    o = ip.read(objlv)
    if isinstance(o, A.Term) and o.sort == 's':
        return b_eq(o, string(''))
    return b_eq(ip.size_of(o), ZERO)


@meth('SetSize', 'resize')
def m_setsize(ip, e, objlv, w):
    if 'Eigen' in e.get('q', '') and len(e['args']) == 2:
        ts = [ip.term(ip.eval(a)) for a in e['args']]
        ip.write(objlv, A.Arr('seq', None, mk('app', ('dim',) + tuple(ts), 'n'), {}, A.UNDEF))
        return None
    o = ip.read(objlv)
    n = ip.n_(T(ip, e['args'][0]))
    if len(e['args']) > 1 and e['args'][1].get('t') in ('d', 'i', 'b') and 'DenseMatrix' in e.get('OT', ''):
        m = T(ip, e['args'][1])
        ip.write(objlv, A.Arr('seq', None, mk('app', ('dim', n, m), 'n'), {}, UNDEF))
        return None
    fill = ip.eval(e['args'][1]) if len(e['args']) > 1 else None
    OT = e.get('OT', '').replace('const ', '')
    if 'DenseMatrix' in OT:
        ip.write(objlv, A.Arr('seq', None, mk('app', ('dim', n, n), 'n'), {}, UNDEF))
        return None
    if isinstance(o, A.Arr) and o.base is None and o.size is not ZERO and o.size is n:
        return None
    if isinstance(o, A.Arr) and o.base is None and is_num(o.size) and is_num(n):
        e2 = {k: v for k, v in o.e.items() if is_num(k) and val(k) < val(n)}
        if fill is None:
            fill = elem_default(ip, OT)
        f = {}
        if o.fill is not None and o.fill is not fill:
            for i in range(int(val(o.size))):
                if num(i) not in e2 and i < val(n):
                    e2[num(i)] = o.fill
        ip.write(objlv, A.Arr('seq', None, n, e2, fill))
        return None
    if fill is None:
        fill = elem_default(ip, OT)
    ip.write(objlv, A.Arr('seq', None, n, {}, fill))
    return None


def elem_default(ip, OT):
    if OT.startswith('std::vector<'):
        it = first_targ(OT)
        if it in ('double', 'int', 'float', 'unsigned long', 'long', 'unsigned int', 'char') or it.startswith('std::complex'):
            return ZERO
        if it == 'bool':
            return FALSE
        if it.endswith('*'):
            return NULL
        return ip.default_value(it)
    return UNDEF


@meth('assign')
def m_assign(ip, e, objlv, w):
    if len(e['args']) == 2 and e['args'][0].get('t') == 'i':
        n = T(ip, e['args'][0])
        ip.write(objlv, A.Arr('seq', None, n, {}, ip.eval(e['args'][1])))
        return None
    if len(e['args']) == 2:
        r = whole(ip, ip.eval(e['args'][0]), ip.eval(e['args'][1]))
        if r is not None:
            xs = range_items(ip, *r[1:])
            if xs is not None:
                ip.write(objlv, A.Arr('seq', None, num(len(xs)), {num(i): x for i, x in enumerate(xs)}, None))
                return None
    return NotImplemented


def range_items(ip, v, lo, hi):
    """elements of a constant range of a container, or None"""
    if not isinstance(v, A.Arr) or not v.concrete() or not is_num(lo) or not is_num(hi):
        return None
    if v.kind == 'set':
        return A.map_order(v.e)[int(val(lo)):int(val(hi))]
    if v.kind == 'map':
        return None
    return [ip.arr_get(v, num(i)) for i in range(int(val(lo)), int(val(hi)))]


@meth('clear')
def m_clear(ip, e, objlv, w):
    OT = e.get('OT', '').replace('const ', '')
    if OT.startswith('std::') and not is_string_t(OT):
        ip.write(objlv, ip.default_value(OT))
        return None
    if is_string_t(OT):
        ip.write(objlv, string(''))
        return None
    return NotImplemented


@meth('reserve', 'Reserve', 'UseDevice', 'shrink_to_fit', 'HostReadWrite0')
def m_noop(ip, e, objlv, w):
    if e['name'] == 'UseDevice' and not e['args']:
        return NotImplemented
    for a in e['args']:
        ip.eval(a)
    return None


@meth('push_back', 'emplace_back', 'Append')
def m_push(ip, e, objlv, w):
    o = ip.read(objlv)
    OT = e.get('OT', '').replace('const ', '')
    if e['name'] == 'emplace_back' and OT.startswith('std::vector<'):
        inner = first_targ(OT)
        if inner.startswith(('std::unique_ptr', 'std::shared_ptr')):
            v = ip.eval(e['args'][0]) if e['args'] else NULL
        elif len(e['args']) == 1 and inner in ('int', 'long', 'unsigned int', 'unsigned long', 'double', 'float', 'bool', 'long long', 'size_t'):
            v = ip.eval(e['args'][0])
            if 'basic_json' in node_type(e['args'][0]):
                v = json_conv(ip, v, inner)
        else:
            v = build(ip, inner, e['args']) if not (len(e['args']) == 1 and e['args'][0].get('t') in ('i', 'd', 'b', 'p')) or inner in ip.p.rec else ip.eval(e['args'][0])
    else:
        if not e['args']:
            return NotImplemented
        v = ip.eval(e['args'][0])
    if ip.st.dead:
        return throw('dead')
    o = ip.read(objlv)
    if isinstance(o, A.Term) and o.sort == 's':
        ip.write(objlv, A.str_concat(o, ip.term(v)))
        return None
    return push(ip, objlv, o, v)


def push(ip, objlv, o, v):
    if isinstance(o, A.VIte):
        def p(x):
            if isinstance(x, A.VIte):
                return ip.vite(x.c, p(x.a), p(x.b))
            c = ip.new_cell(x)
            push(ip, A.LV(c), x, v)
            return ip.st.store[c]
        ip.write(objlv, p(o))
        return None
    if isinstance(o, A.Arr) and o.base is None and is_num(o.size):
        d = dict(o.e)
        d[o.size] = v
        ip.write(objlv, A.Arr('seq', None, add(o.size, ONE), d, o.fill))
        return None
    ip.write(objlv, mk('app', ('push', ip.term(o), ip.term(v)), 'v'))
    return None


@meth('insert', 'emplace', 'try_emplace', 'insert_or_assign')
def m_insert(ip, e, objlv, w):
    o = ip.read(objlv)
    OT = e.get('OT', '').replace('const ', '')
    if OT.startswith(('std::map<', 'std::unordered_map<')):
        if len(e['args']) == 1:
            pv = ip.eval(e['args'][0])
            if isinstance(pv, A.Arr) and pv.kind == 'seq' and pv.size is num(2):
                k, v = ip.term(ip.getc(pv, ('i', ZERO))), ip.getc(pv, ('i', ONE))
            else:
                k, v = ip.term(ip.getc(pv, ('f', 'first'))), ip.getc(pv, ('f', 'second'))
                if isinstance(v, A.Ptr) and '*' not in OT and '_ptr' not in OT:
                    v = ip.read(v.lv)
        elif e['name'] in ('emplace', 'try_emplace', 'insert_or_assign') and len(e['args']) == 2:
            k, v = K(ip, e['args'][0], OT), ip.eval(e['args'][1])
        else:
            return NotImplemented

        def ins(o):
            if isinstance(o, A.VIte):
                return ip.vite(o.c, ins(o.a), ins(o.b))
            if isinstance(o, A.Arr) and o.kind == 'map':
                if o.e.get(k) is not None:
                    return o
                if o.base is None and all(b_eq(k, x) is FALSE for x in o.e):
                    c = A.LV(ip.new_cell(o))
                    ip.write(c.ext(('i', k)), v)
                    return ip.read(c)
            return mk('app', ('minsert', ip.term(o), k, ip.term(v)))
        o = ip.read(objlv)
        if e['name'] == 'insert_or_assign':
            ip.write(objlv.ext(('i', k)), v)
            return None
        had = map_has(ip, o, k)
        ip.write(objlv, ins(o))
        it = A.It(objlv, k, TRUE)
        return A.Obj('std::pair', None, {'first': it, 'second': b_not(had)})
    if OT.startswith(('std::set<', 'std::unordered_set<')) and len(e['args']) == 1:
        k = T(ip, e['args'][0])
        if isinstance(o, A.Arr) and o.kind == 'set' and o.base is None and is_num(o.size) and all(b_eq(k, x) in (TRUE, FALSE) for x in o.e):
            new = k not in o.e
            if new:
                d = dict(o.e)
                d[k] = k
                ip.write(objlv, A.Arr('set', None, add(o.size, ONE), d, None))
            return A.Obj('std::pair', None, {'first': A.It(objlv, k, TRUE), 'second': TRUE if new else FALSE})
        had = as_bool(mk('app', ('has', ip.term(o), k), 'b'))
        ip.write(objlv, mk('app', ('insert', ip.term(o), k)))
        return A.Obj('std::pair', None, {'first': A.It(objlv, k, TRUE), 'second': b_not(had)})
    if OT.startswith('std::vector<') and len(e['args']) == 3:
        pos, a, b = [ip.eval(x) for x in e['args']]
        r = whole(ip, a, b)
        if isinstance(pos, A.It) and r is not None:
            lv, v, lo, hi = r
            n0 = ip.size_of(o)
            if (pos.i is A.END_I or pos.i is n0) and isinstance(o, A.Arr) and o.concrete() and is_num(lo) and is_num(hi):
                d = dict(o.e)
                for i in range(int(val(lo)), int(val(hi))):
                    d[add(n0, num(i - int(val(lo))))] = ip.getc(v, ('i', num(i)))
                ip.write(objlv, A.Arr('seq', None, add(n0, sub(hi, lo)), d, o.fill))
                return None
            if pos.i is A.END_I or pos.i is n0:
                src = ip.term(v)
                if not (lo is ZERO and hi is ip.size_of(v)):
                    src = mk('app', ('slice', src, lo, sub(hi, lo)), 'v')
                ip.write(objlv, mk('app', ('cat', ip.term(o), src), 'v'))
                return None
    return NotImplemented


@meth('find')
def m_find(ip, e, objlv, w):
    o = ip.read(objlv)
    OT = e.get('OT', '').replace('const ', '')
    if is_string_t(OT):
        return str_method(ip, e, objlv, w)
    if not OT.startswith(('std::map<', 'std::unordered_map<', 'std::set<', 'std::unordered_set<')):
        return NotImplemented
    k = K(ip, e['args'][0], OT)
    found = map_has(ip, o, k)
    return A.It(objlv, k, found)


def map_has(ip, o, k):
    if isinstance(o, A.VIte):
        return ite(o.c, map_has(ip, o.a, k), map_has(ip, o.b, k))
    if isinstance(o, A.Arr) and o.base is None:
        r = FALSE
        for x in o.e:
            r = b_or(r, b_eq(x, k))
        return r
    if isinstance(o, A.Arr):
        r = map_has(ip, o.base, k)
        for x in o.e:
            r = b_or(r, b_eq(x, k))
        return r
    t = ip.term(o)
    if t.op == 'app' and t.args[0] == 'insert':
        return b_or(b_eq(t.args[2], k), map_has(ip, t.args[1], k))
    if t.op == 'app' and t.args[0] == 'setof':
        pass
    if t.op == 'ite':
        return ite(as_bool(t.args[0]), map_has(ip, t.args[1], k), map_has(ip, t.args[2], k))
    return as_bool(mk('app', ('has', t, k), 'b'))


@meth('contains', 'count')
def m_contains(ip, e, objlv, w):
    if not e['args']:
        return NotImplemented
    OT = e.get('OT', '').replace('const ', '')
    o = ip.read(objlv)
    k = K(ip, e['args'][0], OT)
    if OT.startswith(('std::map<', 'std::unordered_map<', 'std::set<', 'std::unordered_set<')) or 'basic_json' in OT:
        r = map_has(ip, o, k)
        if e['name'] == 'count':
            return ite(r, ONE, ZERO)
        return r
    return NotImplemented


@meth('at')
def m_at(ip, e, objlv, w):
    OT = e.get('OT', '').replace('const ', '')
    o = ip.read(objlv)
    k = K(ip, e['args'][0], OT)
    if OT.startswith(('std::map<', 'std::unordered_map<')):
        has = map_has(ip, o, k)
        if has is not TRUE and isinstance(o, A.Arr) and o.base is None:
            ip.branch(has, lambda: None, lambda: ip.do_throw('std::out_of_range'))
            if ip.st.dead:
                return throw('dead')
    lv = objlv.ext(('i', k))
    return lv if w else ip.read(lv, (e.get('t'), e.get('T')))


@meth('Elem')
def m_elem(ip, e, objlv, w):
    idx = [T(ip, a) for a in e['args']]
    lv = objlv.ext(('i', idx[0] if len(idx) == 1 else mk('app', ('ij',) + tuple(idx))))
    return lv if w else ip.read(lv, (e.get('t'), e.get('T')))


@meth('front')
def m_front(ip, e, objlv, w):
    lv = objlv.ext(('i', ZERO))
    return lv if w else ip.read(lv, (e.get('t'), e.get('T')))


@meth('back', 'Last')
def m_back(ip, e, objlv, w):
    o = ip.read(objlv)
    if isinstance(o, A.Term) and o.op == 'app' and o.args[0] == 'push':
        return o.args[2]
    lv = objlv.ext(('i', sub(ip.size_of(o), ONE)))
    return lv if w else ip.read(lv, (e.get('t'), e.get('T')))


@meth('begin', 'cbegin')
def m_begin(ip, e, objlv, w):
    return A.It(objlv, ZERO)


@meth('end', 'cend')
def m_end(ip, e, objlv, w):
    return end_of(ip, objlv)


@meth('data', 'GetData', 'HostRead', 'HostWrite', 'HostReadWrite', 'Read', 'Write', 'ReadWrite', 'GetMemory')
def m_data(ip, e, objlv, w):
    OT = e.get('OT', '').replace('const ', '')
    if A.is_vec_type(OT) or OT.startswith('std::array') or OT.startswith('Eigen::') and isinstance(ip.read(objlv), A.Arr):
        return A.Ptr(objlv, ZERO)
    return NotImplemented


@meth('get')
def m_get(ip, e, objlv, w):
    OT = e.get('OT', '').replace('const ', '')
    o = ip.read(objlv)
    if OT.startswith(('std::unique_ptr', 'std::shared_ptr', 'std::__uniq', 'std::__shared', 'std::reference_wrapper')):
        return o
    if 'basic_json' in OT:
        return o
    return NotImplemented


@meth('reset')
def m_reset(ip, e, objlv, w):
    OT = e.get('OT', '').replace('const ', '')
    if OT.startswith(('std::unique_ptr', 'std::shared_ptr', 'std::__shared')):
        v = ip.eval(e['args'][0]) if e['args'] else NULL
        ip.write(objlv, v)
        return None
    return NotImplemented


@meth('release')
def m_release(ip, e, objlv, w):
    OT = e.get('OT', '').replace('const ', '')
    if OT.startswith('std::unique_ptr'):
        v = ip.read(objlv)
        ip.write(objlv, NULL)
        return v
    return NotImplemented


@meth('has_value')
def m_hasv(ip, e, objlv, w):
    return opt_has(ip, ip.read(objlv))


def opt_has(ip, o):
    if isinstance(o, A.VIte):
        return ite(o.c, opt_has(ip, o.a), opt_has(ip, o.b))
    if isinstance(o, A.Term):
        if o.op == 'ite':
            return ite(as_bool(o.args[0]), opt_has(ip, o.args[1]), opt_has(ip, o.args[2]))
        if o.op == 'app' and o.args[0] == 'nullopt':
            return FALSE
        if o.op in ('num',):
            return TRUE
        if o.op == 'app' and (o.args[0].startswith('.') or o.args[0].startswith('m:') or o.args[0] in ('idx',)) or o.op == 'sym':
            return as_bool(mk('app', ('has_value', o), 'b'))
    return TRUE


@meth('value')
def m_value(ip, e, objlv, w):
    OT = e.get('OT', '').replace('const ', '')
    if OT.startswith('std::optional'):
        return ip.read(objlv)
    if 'basic_json' in OT and len(e['args']) == 2:
        o = ip.read(objlv)
        k = T(ip, e['args'][0])
        d = ip.eval(e['args'][1])
        has = map_has(ip, o, k)
        return ip.vite(has, ip.getc(o, ('i', k)), d)
    return NotImplemented


@meth('is_null')
def m_isnull(ip, e, objlv, w):
    if 'basic_json' not in e.get('OT', ''):
        return NotImplemented
    o = ip.read(objlv)
    if o is NULL:
        return TRUE
    if isinstance(o, A.Arr) or isinstance(o, A.Term) and o.op in ('num', 'str', 'sym', 'poly', 'enumc'):
        return FALSE
    return NotImplemented


@meth('value_or')
def m_valor(ip, e, objlv, w):
    o = ip.read(objlv)
    return ip.vite(opt_has(ip, o), o, ip.eval(e['args'][0]))


@meth('operator bool')
def m_bool(ip, e, objlv, w):
    OT = e.get('OT', '').replace('const ', '')
    o = ip.read(objlv)
    if OT.startswith('std::optional'):
        return opt_has(ip, o)
    return ip.truth(o)


@meth('real', 'imag')
def m_ri(ip, e, objlv, w):
    OT = e.get('OT', '').replace('const ', '')
    if OT.startswith('std::complex') and not e['args']:
        t = ip.term(ip.read(objlv))
        return f_re(t) if e['name'] == 'real' else f_im(t)
    return NotImplemented


@meth('c_str', 'str', 'string')
def m_cstr(ip, e, objlv, w):
    OT = e.get('OT', '').replace('const ', '')
    if is_string_t(OT):
        return ip.read(objlv)
    return NotImplemented


@meth('length')
def m_len(ip, e, objlv, w):
    return m_size(ip, e, objlv, w)


# vector algebra -----------------------------------------------------------

def isvec(ip, lv, e):
    return A.is_vec_type(e.get('OT', ''))


@meth('SetVector')
def m_setvector(ip, e, objlv, w):
    """v.SetVector(x, offset)"""
    if len(e['args']) != 2 or not isvec(ip, objlv, e):
        return NotImplemented
    x, off = ip.eval(e['args'][0]), T(ip, e['args'][1])
    n = ip.size_of(x)
    if is_num(n) and is_num(off) and val(n) <= 256:
        for i in range(int(val(n))):
            ip.write(objlv.ext(('i', add(off, num(i)))), ip.getc(x, ('i', num(i))))
        return None
    return NotImplemented


@meth('Add')
def m_add(ip, e, objlv, w):
    if len(e['args']) == 2 and isvec(ip, objlv, e):
        c = T(ip, e['args'][0])
        x = ip.eval(e['args'][1])
        ip.write(objlv, ip.vec_arith('+', ip.read(objlv), ip.vec_arith('*', x, c) if isinstance(x, A.Arr) and x.concrete() else mul(c, ip.term(x))))
        return objlv
    return NotImplemented


@meth('Set')
def m_set(ip, e, objlv, w):
    if len(e['args']) == 2 and isvec(ip, objlv, e):
        c = T(ip, e['args'][0])
        x = ip.eval(e['args'][1])
        ip.write(objlv, ip.vec_arith('*', x, c) if isinstance(x, A.Arr) and x.concrete() else mul(c, ip.term(x)))
        return objlv
    return NotImplemented


@meth('Neg')
def m_neg(ip, e, objlv, w):
    if isvec(ip, objlv, e):
        x = ip.read(objlv)
        ip.write(objlv, ip.vec_arith('*', x, num(-1)) if isinstance(x, A.Arr) and x.concrete() else neg(ip.term(x)))
        return None
    return NotImplemented


@meth('SetSubVector', 'AddElementVector')
def m_setsub(ip, e, objlv, w):
    if not isvec(ip, objlv, e) or len(e['args']) != 2:
        return NotImplemented
    d, x = ip.eval(e['args'][0]), ip.eval(e['args'][1])
    ip.write(objlv, mk('app', ('scatter' if e['name'] == 'SetSubVector' else 'scatteradd', ip.term(ip.read(objlv)), ip.term(d), ip.term(x)), 'v'))
    return None


@meth('Norml2', 'norm')
def m_norml2(ip, e, objlv, w):
    o = ip.read(objlv)
    if isinstance(o, A.Arr) and o.concrete() and not e['args']:
        s = ZERO
        for i in range(int(val(o.size))):
            x = ip.term(ip.arr_get(o, num(i)))
            s = add(s, mul(x, x))
        return f_sqrt(s)
    return NotImplemented


def _inner(ip, e, w=False):
    a, b = [ip.eval(x) for x in e['args'][-2:]]
    if not (isinstance(a, A.Arr) and a.concrete() and isinstance(b, A.Arr) and b.concrete() and a.size is b.size):
        return ip.external_call(e, None, w)
    s = ZERO
    for i in range(int(val(a.size))):
        s = add(s, mul(ip.term(ip.arr_get(a, num(i))), ip.term(ip.arr_get(b, num(i)))))
    return s


MODELS['mfem::InnerProduct'] = _inner


@meth('Mult')
def m_mult(ip, e, objlv, w):
    """y = A x for any operator object"""
    if len(e['args']) != 2:
        return NotImplemented
    OT = e.get('OT', '').replace('const ', '')
    if OT in ip.p.rec:
        return NotImplemented
    a = ip.term(ip.read(objlv))
    x = T(ip, e['args'][0])
    ylv = ip.lval(e['args'][1])
    ip.event('Mult', a, [x], e['ln'])
    ip.write(ylv, op_apply(a, x))
    return None


def op_apply(a, x):
    """linear application, distributed over vector sums"""
    def f(a, x):
        if x.op == 'num' and x is ZERO:
            return ZERO
        if x.op == 'app' and x.args[0] == 'zeros':
            return ZERO
        if x.op == 'poly' and x.sort == 'v':
            r = ZERO
            for m, c in x.args:
                vs = [(y, k) for y, k in m if y.sort == 'v']
                if len(vs) != 1 or vs[0][1] != 1:
                    return mk('app', ('ap', a, x), 'v')
                co = num(c)
                for y, k in m:
                    if y.sort != 'v':
                        co = mul(co, power(y, k))
                r = add(r, mul(co, f(a, vs[0][0])))
            return r
        return mk('app', ('ap', a, x), 'v')
    r = lift2(f, a, x)
    return r if r is not None else f(a, x)


@meth('AddMult')
def m_addmult(ip, e, objlv, w):
    OT = e.get('OT', '').replace('const ', '')
    if OT in ip.p.rec or len(e['args']) < 2:
        return NotImplemented
    a = ip.term(ip.read(objlv))
    x = T(ip, e['args'][0])
    ylv = ip.lval(e['args'][1])
    c = T(ip, e['args'][2]) if len(e['args']) > 2 else ONE
    ip.event('AddMult', a, [x, c], e['ln'])
    y = ip.read(ylv)
    ip.write(ylv, ip.vec_arith('+', y, mul(c, op_apply(a, x))))
    return None


def _subtract(ip, e, w=False):
    """mfem::subtract(x, y, z): z = x - y ; mfem::add(x,y,z): z = x + y"""
    sgn = -1 if e['q'].endswith('subtract') else 1
    a = e['args']
    if len(a) == 3:
        x, y, zlv = ip.eval(a[0]), ip.eval(a[1]), ip.lval(a[2])
        ip.write(zlv, ip.vec_arith('+' if sgn > 0 else '-', x, y))
        return None
    if len(a) == 4:
        x = ip.eval(a[0])
        c = T(ip, a[1])
        y, zlv = ip.eval(a[2]), ip.lval(a[3])
        ip.write(zlv, ip.vec_arith('+' if sgn > 0 else '-', x, mul(c, ip.term(y))))
        return None
    return ip.external_call(e, None, w)


MODELS['mfem::subtract'] = _subtract
MODELS['mfem::add'] = _subtract


@meth('clone', 'Clone')
def m_clone(ip, e, objlv, w):
    """copy of an object whose class is not known: same value, new identity"""
    if e['args']:
        return NotImplemented
    o = ip.read(objlv)
    if isinstance(o, A.Obj) and o.base is not None or isinstance(o, A.Term):
        return A.Ptr(A.LV(ip.new_cell(o)))
    return NotImplemented


@meth('SetDataAndSize', 'MakeRef', 'NewDataAndSize')
def m_setdata(ip, e, objlv, w):
    if not isvec(ip, objlv, e):
        return NotImplemented
    a = e['args']
    v = ip.eval(a[0])
    if e['name'] == 'MakeRef' and len(a) in (2, 3) and isinstance(v, A.Ptr) and v.off is None and isinstance(ip.read(v.lv), A.Obj):
        # grid function: space, data [, offset]
        n = ip.read(v.lv).f.get('#n')
        if n is None:
            return NotImplemented
        v = ip.eval(a[1]) if len(a) == 2 else A.Ptr(ip.lval(a[1]), T(ip, a[2]))
    elif e['name'] == 'MakeRef' and len(a) == 3:
        lv = ip.lval(a[0])
        v = A.Ptr(lv, T(ip, a[1]))
        n = T(ip, a[2])
    elif len(a) == 2:
        n = T(ip, a[1])
    else:
        return NotImplemented
    if isinstance(v, A.Ptr) and v.off is None and v.lv.alts and all(p and p[-1][0] == 'i' for c, cl, p in v.lv.alts) and len(v.lv.alts) == 1:
        # address of an element
        c, cl, p = v.lv.alts[0]
        v = A.Ptr(A.LV(cl, p[:-1]), p[-1][1])
    if isinstance(v, A.Ptr) and v.off is not None and is_num(n) and is_num(v.off) and int(val(n)) <= 64 and len(v.lv.alts) == 1:
        ip.rebind(objlv, A.View(v.lv, v.off, n))
        return None
    if isinstance(v, A.Ptr) and v.off is not None:
        arr = ip.read(v.lv)
        if v.off is ZERO and isinstance(arr, A.Arr) and arr.size is n:
            ip.write(objlv, arr)
        else:
            ip.write(objlv, slice_of(ip, v, n))
        return None
    return NotImplemented


# ------------------------------------------------------------------- JSON
# a JSON document is a map (keys are strings), a sequence, a leaf value, or an
# unknown term; conversions are the identity, to integers they truncate

def json_conv(ip, v, T):
    T = T.replace('const ', '').rstrip('& ')
    if isinstance(v, A.VIte):
        return ip.vite(v.c, json_conv(ip, v.a, T), json_conv(ip, v.b, T))
    if not isinstance(v, A.Term):
        return v
    if T in ('int', 'long', 'unsigned int', 'unsigned long', 'size_t', 'long long', 'unsigned long long', 'short', 'char', 'unsigned char'):
        def f(x):
            if x.op == 'num':
                return num(int(x.args[0]))
            if x.op in ('sym', 'app') and x.sort is None:
                x.sort = 'n'
            return x if x.op == 'throw' or is_int(x) else mk('app', ('trunc', x), 'n')
        return lift1(f, v) if v.op == 'ite' else f(v)
    if v.op in ('sym', 'app') and v.sort is None:
        v.sort = {'double': 'n', 'float': 'n', 'bool': 'b'}.get(T, 's' if 'basic_string' in T else None)
    if T == 'bool':
        return as_bool(v)
    return v


def json_method(ip, e, objlv, w):
    name = e.get('name', '')
    if name.startswith('operator ') or name in ('get', 'template get', 'get_ref'):
        return json_conv(ip, ip.read(objlv), e.get('T', ''))
    if name == 'get_to':
        lv = ip.lval(e['args'][0])
        ip.write(lv, json_conv(ip, ip.read(objlv), e.get('T', '')))
        return lv
    if name == 'at':
        k = ip.term(ip.eval(e['args'][0]))
        o = ip.read(objlv)
        if k.sort == 's' or k.op == 'str':
            has = map_has(ip, o, k)
            if has is not TRUE:
                ip.branch(has, lambda: None, lambda: ip.do_throw('json::out_of_range'))
                if ip.st.dead:
                    return throw('dead')
        lv = objlv.ext(('i', k))
        return lv if w else ip.read(lv, (e.get('t'), e.get('T')))
    o = ip.read(objlv)
    if name in ('is_string', 'is_number', 'is_array', 'is_object', 'is_boolean', 'is_null', 'is_number_float', 'is_number_integer'):
        if isinstance(o, A.Arr):
            return TRUE if name == ('is_object' if o.kind == 'map' else 'is_array') else FALSE
        if isinstance(o, A.Term) and o.sort in ('n', 's', 'b'):
            want = {'n': ('is_number',), 's': ('is_string',), 'b': ('is_boolean',)}[o.sort]
            if o.sort != 'n' or not name.startswith('is_number_'):
                return TRUE if name in want else FALSE
    return NotImplemented


# ---------------------------------------------------------- numeric limits

INF = mk('sym', ('INF',), 'n')


def _limit(name):
    def f(ip, e, w=None, *r):
        isint = e.get('t') == 'i'
        if name == 'epsilon':
            return num(Fraction(1, 2 ** 52))
        if name in ('max', 'lowest', 'min'):
            if isint:
                big = 2 ** 31 - 1
                return num(big if name == 'max' else -big - 1)
            big = num(Fraction(2) ** 1024 - Fraction(2) ** 971)
            return big if name == 'max' else (neg(big) if name == 'lowest' else num(Fraction(1, 2 ** 1022)))
        if name == 'infinity':
            return INF
        return mk('app', ('nan',), 'n')
    return f


for _n in ('epsilon', 'max', 'lowest', 'min', 'infinity', 'quiet_NaN'):
    MODELS['std::numeric_limits::' + _n] = _limit(_n)


# ------------------------------------------------------------- collectives

def _allreduce(ip, e, w=None, *r):
    """element-wise reduction over all processes: an uninterpreted function of the
    local value and the operation"""
    a = e['args']
    send = ip.eval(a[0])
    recv = ip.eval(a[1])
    op = ip.term(ip.eval(a[4]))
    if not isinstance(recv, A.Ptr):
        return NotImplemented
    n = ip.term(ip.eval(a[2]))
    if isinstance(send, A.Ptr):
        sl = send.lv if send.off is None else send.lv.ext(('i', send.off)) if n is ONE else send.lv
    else:
        sl = recv.lv if recv.off is None else recv.lv.ext(('i', recv.off)) if n is ONE else recv.lv
    rl = recv.lv if recv.off is None else recv.lv.ext(('i', recv.off)) if n is ONE else recv.lv
    v = ip.read(sl)
    t = ip.term(v)
    ip.event('MPI_Allreduce', None, [t, n, op], e['ln'])

    def f(x):
        return mk('app', ('allreduce', op, x), x.sort) if x.op != 'throw' else x
    if isinstance(v, A.Arr) and v.base is None and v.size.op == 'num':
        ip.write(rl, A.Arr(v.kind, None, v.size, {k: f(ip.term(x)) for k, x in v.e.items()}, f(ip.term(v.fill)) if v.fill is not None else None))
    else:
        ip.write(rl, f(t))
    return ZERO


MODELS['MPI_Allreduce'] = _allreduce


# ------------------------------------------------------ reordering algorithms

def _elems(ip, a, b):
    """concrete range [a,b): (lv, first index, [values]) or None"""
    r = whole(ip, a, b)
    if r is None:
        return None
    lv, v, lo, hi = r
    n = sub(hi, lo)
    if not (is_num(n) and is_num(lo) and 0 <= int(val(n)) <= 4 * A.MAX_UNROLL):
        return None
    return lv, int(val(lo)), [ip.getc(v, ('i', add(lo, num(i)))) for i in range(int(val(n)))]


def _less(ip, f):
    def lt(x, y):
        if f is None:
            x, y = ip.term(x), ip.term(y)
            if x.op == 'str' and y.op == 'str':
                return TRUE if x.args[0] < y.args[0] else FALSE
            return b_lt(x, y)
        return ip.truth(ip.invoke(f, [A.LV(ip.new_cell(x)), A.LV(ip.new_cell(y))]))
    return lt


def _sort(ip, e, w=False):
    a, b = ip.eval(e['args'][0]), ip.eval(e['args'][1])
    f = ip.eval(e['args'][2]) if len(e['args']) > 2 else None
    r = _elems(ip, a, b)
    if r is None:
        q = whole(ip, a, b)
        if q is None:
            return ip.external_call(e, None, w)
        ip.write(q[0], mk('app', ('sorted', ip.term(q[1]), q[2], q[3]) + ((ip.term(f),) if f is not None else ()), 'v'))
        return None
    lv, lo, vs = r
    lt = _less(ip, f)
    out = []
    for x in vs:
        i = len(out)
        while i > 0:
            c = lt(x, out[i - 1])
            if c is not TRUE and c is not FALSE:
                v = ip.read(lv)
                ip.write(lv, mk('app', ('sorted', ip.term(v), num(lo), num(lo + len(vs))) + ((ip.term(f),) if f is not None else ()), 'v'))
                return None
            if c is FALSE:
                break
            i -= 1
        out.insert(i, x)
    for i, x in enumerate(out):
        ip.write(lv.ext(('i', num(lo + i))), x)
    return None


MODELS['std::sort'] = _sort
MODELS['std::stable_sort'] = _sort


def _unique(ip, e, w=False):
    a, b = ip.eval(e['args'][0]), ip.eval(e['args'][1])
    r = _elems(ip, a, b)
    if r is None or len(e['args']) > 2:
        return ip.external_call(e, None, w)
    lv, lo, vs = r
    out = []
    for x in vs:
        if out:
            c = ip.equal(out[-1], x)
            if c is TRUE:
                continue
            if c is not FALSE:
                return ip.external_call(e, None, w)
        out.append(x)
    for i, x in enumerate(out):
        ip.write(lv.ext(('i', num(lo + i))), x)
    return A.It(lv, num(lo + len(out)))


MODELS['std::unique'] = _unique


def _test(ip, e, k):
    """condition of an algorithm: a predicate or a value to compare with"""
    f = ip.eval(e['args'][k])
    n = (e.get('q') or e.get('name') or '').split('<')[0]
    if n.endswith('_if') or n.endswith('_if_not'):
        c = lambda lv: ip.truth(ip.invoke(f, [lv]))
        return (lambda lv: b_not(c(lv))) if n.endswith('_not') else c
    return lambda lv: ip.equal(ip.read(lv), f)


def _remove(ip, e, w=False):
    a, b = ip.eval(e['args'][0]), ip.eval(e['args'][1])
    r = _elems(ip, a, b)
    if r is None:
        return ip.external_call(e, None, w)
    t = _test(ip, e, 2)
    lv, lo, vs = r
    cs = [t(lv.ext(('i', num(lo + i)))) for i in range(len(vs))]
    if not all(c in (TRUE, FALSE) for c in cs):
        return ip.external_call(e, None, w)
    out = [x for x, c in zip(vs, cs) if c is FALSE]
    for i, x in enumerate(out):
        ip.write(lv.ext(('i', num(lo + i))), x)
    return A.It(lv, num(lo + len(out)))


MODELS['std::remove'] = MODELS['std::remove_if'] = _remove


def _count(ip, e, w=False):
    a, b = ip.eval(e['args'][0]), ip.eval(e['args'][1])
    r = _elems(ip, a, b)
    if r is None:
        return ip.external_call(e, None, w)
    t = _test(ip, e, 2)
    n = ZERO
    for i in range(len(r[2])):
        n = add(n, ite(t(r[0].ext(('i', num(r[1] + i)))), ONE, ZERO))
    return n


MODELS['std::count'] = MODELS['std::count_if'] = _count


def _find_if(ip, e, w=False):
    a, b = ip.eval(e['args'][0]), ip.eval(e['args'][1])
    r = _elems(ip, a, b)
    if r is None:
        return ip.external_call(e, None, w)
    t = _test(ip, e, 2)
    lv, lo, vs = r
    pos = num(lo + len(vs))
    for i in reversed(range(len(vs))):
        pos = ite(t(lv.ext(('i', num(lo + i)))), num(lo + i), pos)
    return A.It(lv, pos, None)


MODELS['std::find_if'] = MODELS['std::find_if_not'] = _find_if


def _extreme(low):
    def m(ip, e, w=False):
        a, b = ip.eval(e['args'][0]), ip.eval(e['args'][1])
        r = _elems(ip, a, b)
        if r is None or not r[2]:
            return ip.external_call(e, None, w)
        lt = _less(ip, ip.eval(e['args'][2]) if len(e['args']) > 2 else None)
        lv, lo, vs = r
        pos, best = num(lo), vs[0]
        for i in range(1, len(vs)):
            c = lt(vs[i], best) if low else lt(best, vs[i])
            if c is FALSE:
                continue
            if c is TRUE:
                pos, best = num(lo + i), vs[i]
            elif isinstance(best, A.Term) and isinstance(vs[i], A.Term):
                pos, best = ite(c, num(lo + i), pos), ite(c, vs[i], best)
            else:
                return ip.external_call(e, None, w)
        return A.It(lv, pos, None)
    return m


MODELS['std::min_element'] = _extreme(True)
MODELS['std::max_element'] = _extreme(False)


def _exchange(ip, e, w=False):
    lv = ip.lval(e['args'][0])
    old = ip.read(lv)
    ip.write(lv, ip.eval(e['args'][1]))
    return old


MODELS['std::exchange'] = _exchange


def _transform(ip, e, w=False):
    a, b = ip.eval(e['args'][0]), ip.eval(e['args'][1])
    r = _elems(ip, a, b)
    two = len(e['args']) == 5
    s = ip.eval(e['args'][2]) if two else None
    d = ip.eval(e['args'][3 if two else 2])
    f = ip.eval(e['args'][-1])
    at = lambda p, i: p.lv.ext(('i', add(p.off if isinstance(p, A.Ptr) else p.i, num(i))))
    ok = lambda p: isinstance(p, A.It) and p.i is not A.END_I or isinstance(p, A.Ptr) and p.off is not None
    if r is None or not ok(d) or two and not ok(s):
        return ip.external_call(e, None, w)
    lv, lo, vs = r
    for i, x in enumerate(vs):
        y = ip.invoke(f, [A.LV(ip.new_cell(v)) for v in [x] + ([ip.read(at(s, i))] if two else [])])
        ip.write(at(d, i), ip.read(y) if isinstance(y, A.LV) else y)
    n = num(len(vs))
    return A.It(d.lv, add(d.i, n)) if isinstance(d, A.It) else A.Ptr(d.lv, add(d.off, n))


MODELS['std::transform'] = _transform


def _inner_product(ip, e, w=False):
    a, b, c = (ip.eval(x) for x in e['args'][:3])
    r = _elems(ip, a, b)
    ok = isinstance(c, A.It) and c.i is not A.END_I or isinstance(c, A.Ptr) and c.off is not None
    if r is None or not ok or len(e['args']) != 4:
        return ip.external_call(e, None, w)
    acc = T(ip, e['args'][3])
    for i, x in enumerate(r[2]):
        y = ip.read(c.lv.ext(('i', add(c.off if isinstance(c, A.Ptr) else c.i, num(i)))))
        acc = add(acc, mul(ip.term(x), ip.term(y)))
    return acc


MODELS['std::inner_product'] = _inner_product


def _fill_n(ip, e, w=False):
    a, n = ip.eval(e['args'][0]), T(ip, e['args'][1])
    x = ip.eval(e['args'][2])
    x = ip.read(x) if isinstance(x, A.LV) else x
    if not is_num(n) or val(n) > A.MAX_UNROLL or not isinstance(a, (A.It, A.Ptr)):
        return ip.external_call(e, None, w)
    o = a.off if isinstance(a, A.Ptr) else a.i
    if o is None or o is A.END_I:
        return ip.external_call(e, None, w)
    for i in range(int(val(n))):
        ip.write(a.lv.ext(('i', add(o, num(i)))), x)
    return A.It(a.lv, add(o, n)) if isinstance(a, A.It) else A.Ptr(a.lv, add(o, n))


MODELS['std::fill_n'] = _fill_n


def _reverse(ip, e, w=False):
    a, b = ip.eval(e['args'][0]), ip.eval(e['args'][1])
    r = _elems(ip, a, b)
    if r is None:
        return ip.external_call(e, None, w)
    for i, x in enumerate(reversed(r[2])):
        ip.write(r[0].ext(('i', num(r[1] + i))), x)


MODELS['std::reverse'] = _reverse


def _moved(sign):
    def m(ip, e, w=False):
        a = ip.eval(e['args'][0])
        n = T(ip, e['args'][1]) if len(e['args']) > 1 else ONE
        if isinstance(a, A.It) and getattr(a, 'found', None) is None:
            o = ip.size_of(ip.read(a.lv)) if a.i is A.END_I else a.i
            return A.It(a.lv, add(o, n) if sign > 0 else sub(o, n))
        if isinstance(a, A.Ptr) and a.off is not None:
            return A.Ptr(a.lv, add(a.off, n) if sign > 0 else sub(a.off, n))
        return ip.external_call(e, None, w)
    return m


MODELS['std::next'] = _moved(1)
MODELS['std::prev'] = _moved(-1)


@meth('erase')
def m_erase(ip, e, objlv, w):
    if is_string_t(e.get('OT', '').replace('const ', '')):
        return str_method(ip, e, objlv, w)
    if not (A.is_vec_type(e.get('OT', '').replace('const ', '')) or e.get('OT', '').replace('const ', '').startswith(('std::map<', 'std::set<', 'std::unordered_'))):
        return NotImplemented
    if not isinstance(ip.read(objlv), A.Arr):
        return NotImplemented
    args = [ip.eval(x) for x in e['args']]
    o = ip.read(objlv)
    if not isinstance(o, A.Arr) or o.base is not None:
        return NotImplemented
    if o.kind == 'seq' and is_num(o.size) and args and all(isinstance(x, A.It) for x in args):
        n = int(val(o.size))
        idx = [n if x.i is A.END_I else x.i for x in args]
        idx = [int(val(x)) if isinstance(x, A.Term) and is_num(x) else x for x in idx]
        if not all(isinstance(x, int) for x in idx):
            return NotImplemented
        lo, hi = idx[0], idx[1] if len(idx) > 1 else idx[0] + 1
        vs = [ip.getc(o, ('i', num(i))) for i in range(n) if not lo <= i < hi]
        ip.write(objlv, A.Arr('seq', None, num(len(vs)), {num(i): x for i, x in enumerate(vs)}, o.fill))
        return A.It(objlv, num(lo))
    if o.kind in ('map', 'set') and len(args) == 1:
        k = args[0]
        if isinstance(k, A.It):
            if k.found is None:
                if not (isinstance(k.i, A.Term) and is_num(k.i) and o.concrete()):
                    return NotImplemented
                k = A.map_order(o.e)[int(val(k.i))]
            else:
                k = k.i
        k = ip.term(k)
        cs = {x: b_eq(x, k) for x in o.e}
        if not all(c in (TRUE, FALSE) for c in cs.values()):
            return NotImplemented
        keep = {x: v for x, v in o.e.items() if cs[x] is FALSE}
        ip.write(objlv, A.Arr(o.kind, None, num(len(keep)), keep, o.fill))
        return num(len(o.e) - len(keep))
    return NotImplemented


# ----------------------------------------------------------- string methods

NPOS = 2 ** 64 - 1


def str_method(ip, e, objlv, w):
    """methods of constant strings are folded; anything else stays uninterpreted"""
    OT = e.get('OT', '').replace('const ', '')
    if not is_string_t(OT):
        return NotImplemented
    o = ip.term(ip.read(objlv))
    if o.op == 'throw':
        return NotImplemented
    args = [T(ip, a) for a in e['args'] if a.get('k') != 'defarg']
    n = e['name']

    def py(t):
        return t.args[0] if t.op == 'str' else (int(t.args[0]) if t.op == 'num' else chr(int(t.args[0])) if t.op == 'chr' else None)
    mut = n in ('erase', 'append')

    def f(s, *a):
        v = [py(x) for x in (s,) + a]
        if any(x is None for x in v):
            return None
        s, a = v[0], v[1:]

        def ch(x):
            return chr(x) if isinstance(x, int) else x
        if n in ('find', 'rfind'):
            q = ch(a[0])
            if n == 'find':
                r = s.find(q, a[1] if len(a) > 1 else 0)
            else:
                r = s.rfind(q) if len(a) < 2 or a[1] >= len(s) else s.rfind(q, 0, a[1] + len(q))
            return num(NPOS if r < 0 else r)
        if n in ('find_last_of', 'find_first_of'):
            q = set(ch(a[0]))
            h = [i for i, c in enumerate(s) if c in q]
            return num(NPOS) if not h else num(h[-1] if n == 'find_last_of' else h[0])
        if n == 'substr':
            b = a[0] if a else 0
            k = a[1] if len(a) > 1 else NPOS
            return string(s[b:b + k] if k < len(s) else s[b:])
        if n == 'compare':
            if len(a) == 1:
                x, y = s, a[0]
            elif len(a) == 3:
                x, y = s[a[0]:a[0] + a[1]] if a[1] < len(s) else s[a[0]:], a[2]
            else:
                return None
            return num(0 if x == y else (-1 if x < y else 1))
        if n == 'erase':
            b = a[0] if a else 0
            k = a[1] if len(a) > 1 else NPOS
            return string(s[:b] + (s[b + k:] if k < len(s) else ''))
        if n == 'append' and len(a) == 1:
            return string(s + a[0])
        if n in ('starts_with', 'ends_with'):
            return TRUE if getattr(s, n.replace('_', ''))(ch(a[0])) else FALSE
        return None
    if n == 'append' and len(args) == 1:
        ip.write(objlv, A.str_concat(o, args[0]))
        return objlv if w else ip.read(objlv)
    todo = (o,) + tuple(args)
    bad = []

    def g(*xs):
        r = f(*xs)
        if r is None:
            bad.append(1)
            return ZERO
        return r
    r = liftn(g, todo) if any(x.op == 'ite' for x in todo) else g(*todo)
    if bad or r is None:
        return NotImplemented
    if mut:
        ip.write(objlv, r)
        return objlv if w else r
    return r


for _n in ('rfind', 'substr', 'compare', 'append', 'find_last_of', 'find_first_of', 'starts_with', 'ends_with'):
    if _n not in METHODS:
        METHODS[_n] = str_method
    else:
        print('method model clash', _n)


def const_seq(ip, o):
    """element terms of a constant-size sequence, or None"""
    if not isinstance(o, A.Arr) or o.kind not in ('seq',) or not is_num(o.size) or val(o.size) > 64:
        return None
    out = []
    for i in range(int(val(o.size))):
        x = ip.term(ip.arr_get(o, num(i)))
        if isinstance(x, Term) and x is UNDEF:
            return None
        out.append(x)
    return out


@meth('Find', 'FindSorted')
def m_find_arr(ip, e, objlv, w):
    xs = const_seq(ip, ip.read(objlv))
    if xs is None or 'mfem::Array' not in e.get('OT', ''):
        return ip.external_call(e, objlv, w)
    k = T(ip, e['args'][0])
    r = num(-1)
    for i in range(len(xs) - 1, -1, -1):
        r = ite(b_eq(xs[i], k), num(i), r)
    return r


@meth('Sort', 'Unique')
def m_sort(ip, e, objlv, w):
    xs = const_seq(ip, ip.read(objlv))
    if xs is None or e['args'] or not all(is_num(x) for x in xs):
        return NotImplemented
    if e['name'].split('::')[-1] == 'Sort':
        xs = sorted(xs, key=val)
    else:
        xs = [x for i, x in enumerate(xs) if i == 0 or xs[i - 1] is not x]
    ip.write(objlv, A.Arr('seq', None, num(len(xs)), {num(i): x for i, x in enumerate(xs)}, None))


@meth('Max', 'Min', 'Sum')
def m_maxmin(ip, e, objlv, w):
    xs = const_seq(ip, ip.read(objlv))
    n = e['name'].split('::')[-1]
    if not xs or e['args']:
        return ip.external_call(e, objlv, w)
    r = xs[0]
    for x in xs[1:]:
        r = add(r, x) if n == 'Sum' else f_minmax(n.lower(), r, x)
    return r


@meth('DistanceTo', 'DistanceSquaredTo')
def m_dist(ip, e, objlv, w):
    a = const_seq(ip, ip.read(objlv))
    b = const_seq(ip, ip.eval(e['args'][0]))
    if a is None or b is None or len(a) != len(b):
        return ip.external_call(e, objlv, w)
    s = ZERO
    for x, y in zip(a, b):
        d = sub(x, y)
        s = add(s, mul(d, d))
    return f_sqrt(s) if e['name'].split('::')[-1] == 'DistanceTo' else s


# ------------------------------------------------------- dense linear algebra
@meth('asDiagonal')
def m_asdiagonal(ip, e, objlv, w):
    o = ip.read(objlv)
    if isinstance(o, A.Arr) and o.kind == 'seq':
        return A.Obj('#diagonal', None, {'v': o})
    return NotImplemented


@meth('setZero', 'setOnes', 'setConstant')
def m_setzero(ip, e, objlv, w):
    o = ip.read(objlv)
    if 'Eigen' not in e.get('q', '') or not isinstance(o, A.Arr):
        return NotImplemented
    a = [T(ip, x) for x in e['args']]
    v = a.pop() if e['name'] == 'setConstant' else ZERO if e['name'] == 'setZero' else ONE
    ip.write(objlv, A.Arr('seq', None, o.size if not a else a[0] if len(a) == 1 else mk('app', ('dim',) + tuple(a), 'n'), {}, v))
    return objlv


@meth('maxCoeff', 'minCoeff', 'sum', 'dot', 'squaredNorm')
def m_coeffs(ip, e, objlv, w):
    o = ip.read(objlv)
    if 'Eigen' not in e.get('q', '') or not isinstance(o, A.Arr) or not o.concrete() or int(val(o.size)) > A.MAX_UNROLL:
        return NotImplemented
    n, name = int(val(o.size)), e['name']
    x = [ip.term(ip.arr_get(o, num(i))) for i in range(n)]
    if name in ('maxCoeff', 'minCoeff'):
        if e['args'] or not x:
            return NotImplemented
        t = x[0]
        for y in x[1:]:
            t = f_minmax(name[:3], t, y)
        return t
    y = x if name == 'squaredNorm' else [ONE] * n
    if name == 'dot':
        b = ip.eval(e['args'][0])
        if not isinstance(b, A.Arr) or b.size is not o.size:
            return NotImplemented
        y = [ip.term(ip.arr_get(b, num(i))) for i in range(n)]
    t = ZERO
    for p, q in zip(x, y):
        t = add(t, mul(p, q))
    return t


@meth('rows', 'cols')
def m_rowscols(ip, e, objlv, w):
    o = ip.read(objlv)
    if 'Eigen' not in e.get('q', '') or not isinstance(o, A.Arr):
        return NotImplemented
    z = o.size
    if isinstance(z, A.Term) and z.op == 'app' and z.args[0] == 'dim' and len(z.args) == 3:
        return z.args[1 if e['name'] == 'rows' else 2]
    if o.concrete():
        return o.size if e['name'] == 'rows' else ONE
    return NotImplemented


@meth('Height', 'NumRows', 'Width', 'NumCols')
def m_dense_size(ip, e, objlv, w):
    o = ip.read(objlv)
    z = o.size if isinstance(o, A.Arr) else None
    if 'mfem::' in e.get('q', '') and isinstance(z, A.Term) and z.op == 'app' and z.args[0] == 'dim' and len(z.args) == 3:
        return z.args[1 if e['name'] in ('Height', 'NumRows') else 2]
    return NotImplemented
