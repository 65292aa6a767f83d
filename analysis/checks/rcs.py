"""Radar cross sections: recorded surface fields, far-field transform, normalisation."""
import re
from fw import *
from terms import *
from checks.common import *
from checks.dg import *
from checks.dg import Face, PFES
from checks.tfsf import GeoDG, FES
from checks.solver import RunModel, lines, values, COMP, C_SI
from checks.sources import ft_enum
from checks.model import bdr_enum
import prog

UNITS = [u for u in prog.all_sources() if not u.startswith('src/launcher')]
PP = 'maxwell::RCSSurfacePostProcessor'
SIZES = {'double': 8, 'int': 4, 'float': 4, 'char': 1, 'int32_t': 4, 'long': 8, 'unsigned int': 4}
LF = ('mfem::ParLinearForm', 'mfem::LinearForm')
PATH = 'std::filesystem::path'


def pointee(e):
    """element type of the pointer behind casts to bytes, and that pointer"""
    T = 'char'
    while e.get('k') == 'cast' and e.get('ck') == 'ptr':
        if e['ST'].replace('const ', '') not in ('void', 'char', 'unsigned char'):
            T = e['ST'].replace('const ', '')
        e = e['e']
    return T, e


class Files:
    """binary files: lists of (bytes, value); directories with entries (name, is a directory)"""

    def text(self, ip, t):
        t = self.join(t)
        if t.op != 'str':
            raise AnalysisError('name of a file or directory not resolved: %s' % show(t)[:200])
        s = t.args[0]
        while '//' in s:
            s = s.replace('//', '/')
        return s

    def join(self, t):
        if t.op == 'app' and t.args[0] in ('m:string', 'm:c_str', 'm:generic_string') and len(t.args) == 2:
            return self.join(t.args[1])
        if t.op == 'app' and t.args[0] in ('str/', 'op/'):
            return str_concat(str_concat(self.join(t.args[1]), string('/')), self.join(t.args[2]))
        return t

    def binary_models(self, m):
        def const(t):
            return lambda ip, e, *r: t

        def name(ip, t):
            t = t if isinstance(t, Term) else ip.term(t)
            s = self.text(ip, t)
            return s

        base = m['construct']

        def cons(ip, e, T):
            T0 = T.replace('const ', '')
            if T0.startswith('std::basic_ifstream<') and e['args']:
                v = ip.eval(e['args'][0])
                if isinstance(v, Obj):
                    return v
                p = name(ip, v)
                return Obj('std::ifstream', sym('in', None), {'#path': string(p), '#pos': ZERO, '#ok': TRUE if p in self.bins else FALSE})
            if 'directory_iterator' in T0 and e['args']:
                v = ip.eval(e['args'][0])
                if isinstance(v, Arr):
                    return v
                p = name(ip, v).rstrip('/')
                if p not in self.listing:
                    raise AnalysisError('listing of an unexpected directory: %s' % p)
                return vec([Obj('std::filesystem::directory_entry', None, {'#path': string(p + '/' + n), '#dir': TRUE if d else FALSE}) for n, d in self.listing[p]])
            if T0.startswith('std::basic_regex<') and e['args']:
                v = ip.eval(e['args'][0])
                return v if isinstance(v, Obj) else Obj('std::regex', None, {'#pat': ip.term(v)})
            if T0 in LF:
                v = ip.eval(e['args'][0])
                o = ip.read(ip.deref(v))
                lv = Arr('seq', None, num(self.ndofs(ip, o)), {}, ZERO)
                self.lastfes = v
                return lv
            return base(ip, e, T)
        m['construct'] = cons

        def match(ip, e, w=None):
            s = ip.term(ip.eval(e['args'][0]))
            r = [v for v in (ip.eval(a) for a in e['args'][1:]) if isinstance(v, Obj) and '#pat' in v.f]
            pt = r[0].f['#pat'] if r else None
            if s.op != 'str' or pt is None or pt.op != 'str':
                raise AnalysisError('pattern match not resolved')
            f = re.fullmatch if e.get('name', e['q']).endswith('regex_match') else re.search
            return TRUE if f(pt.args[0], s.args[0]) else FALSE
        m['std::regex_match'] = m['std::regex_search'] = match
        D = 'std::filesystem::directory_entry::'
        m[D + 'is_directory'] = lambda ip, e, lv, w: ip.read(lv).f['#dir']
        m[D + 'is_regular_file'] = lambda ip, e, lv, w: b_not(ip.read(lv).f['#dir'])
        m[D + 'path'] = lambda ip, e, lv, w: ip.read(lv).f['#path']
        m[D + 'operator const std::filesystem::path &'] = m[D + 'path']

        def part(f):
            def g(ip, e, lv, w):
                return string(f(name(ip, ip.read(lv))))
            return g
        m[PATH + '::filename'] = part(lambda s: s.rsplit('/', 1)[-1])
        m[PATH + '::parent_path'] = part(lambda s: s.rsplit('/', 1)[0] if '/' in s else '')
        m[PATH + '::string'] = m[PATH + '::c_str'] = m[PATH + '::generic_string'] = lambda ip, e, lv, w: string(name(ip, ip.read(lv)))

        # ------------------------------------------------------------- streams
        def lvof(ip, a):
            """cells behind a pointer: function of the element index"""
            v = ip.eval(a)
            if isinstance(v, Arr):
                lv = ip.lval(a)
                return lambda k: lv.ext(('i', num(k))), v
            if not isinstance(v, Ptr):
                raise AnalysisError('buffer of a file not understood: %r' % (v,))
            o = ip.read(v.lv)
            if isinstance(o, Arr):
                off = v.off if v.off is not None else ZERO
                return lambda k: v.lv.ext(('i', add(off, num(k)))), o
            return lambda k: v.lv, o

        def count(ip, e):
            n = ip.term(ip.eval(e['args'][1]))
            if n.op != 'num':
                raise AnalysisError('number of bytes of a file operation not resolved: %s' % show(n)[:200])
            T, node = pointee(e['args'][0])
            if T not in SIZES:
                raise AnalysisError('type of a file buffer not understood: %s' % T)
            return int(val(n)), SIZES[T], node

        def read(ip, e, lv, w):
            o = ip.read(lv)
            nb, sz, node = count(ip, e)
            at, cur = lvof(ip, node)
            if ip.abs_pc() is not TRUE:
                raise AnalysisError('file read under a condition the analysis cannot resolve: %s' % show(ip.abs_pc())[:300])
            if nb % sz:
                self.torn.append('%d bytes into items of %d' % (nb, sz))
            data = self.bins.get(o.f['#path'].args[0], [])
            pos, ok = int(val(o.f['#pos'])), o.f['#ok'] is TRUE
            for k in range(nb // sz):
                if not ok or pos >= len(data):
                    ok = False
                    break
                s, x = data[pos]
                pos += 1
                if s != sz:
                    self.torn.append('an item of %d bytes read as one of %d' % (s, sz))
                    x = sym('torn')
                if isinstance(cur, Arr) and cur.size.op == 'num' and k >= int(val(cur.size)):
                    self.torn.append('read past the end of a buffer of %d' % int(val(cur.size)))
                    continue
                ip.write(at(k), x)
            ip.write(lv, Obj(o.cls, o.base, dict(o.f, **{'#pos': num(pos), '#ok': TRUE if ok else FALSE})))
            return lv

        def peek(ip, e, lv, w):
            o = ip.read(lv)
            data = self.bins.get(o.f['#path'].args[0], [])
            more = o.f['#ok'] is TRUE and int(val(o.f['#pos'])) < len(data)
            return num(1) if more else num(-1)

        def good(ip, e, lv, w):
            o = ip.read(lv)
            if not isinstance(o, Obj) or '#ok' not in o.f:
                return ip.external_call(e, lv, w)
            return o.f['#ok']

        def bad(ip, e, lv, w):
            o = ip.read(lv)
            if not isinstance(o, Obj) or '#ok' not in o.f:
                return ip.external_call(e, lv, w)
            return b_not(o.f['#ok'])

        def gcount(ip, e, lv, w):
            raise AnalysisError('byte counts of partial reads are not modelled')

        def write(ip, e, lv, w):
            o = ip.read(lv)
            nb, sz, node = count(ip, e)
            at, cur = lvof(ip, node)
            if ip.abs_pc() is not TRUE:
                raise AnalysisError('file written under a condition the analysis cannot resolve')
            if not isinstance(o, Obj) or o.f.get('#path') in (None, NULL):
                raise AnalysisError('write to a file that is not open')
            out = self.files[o.f['#path'].args[0]]
            if nb % sz:
                self.torn.append('%d bytes from items of %d' % (nb, sz))
            for k in range(nb // sz):
                if isinstance(cur, Arr) and cur.size.op == 'num' and k >= int(val(cur.size)):
                    self.torn.append('%d items written from a buffer of %d' % (nb // sz, int(val(cur.size))))
                    break
                out.append((sz, ip.term(ip.read(at(k)))))
            return lv
        for c in ('std::basic_istream', 'std::basic_ifstream', 'std::basic_ios', 'std::basic_istream<char>', 'std::basic_ifstream<char>', 'std::basic_ios<char>'):
            m[c + '::read'], m[c + '::peek'], m[c + '::gcount'] = read, peek, gcount
            m[c + '::operator!'] = m[c + '::fail'] = bad
            m[c + '::operator bool'] = m[c + '::good'] = m[c + '::is_open'] = good
            m[c + '::close'] = const(None)
            m[c + '::eof'] = lambda ip, e, lv, w: b_not(good(ip, e, lv, w))
        for c in ('std::basic_ostream', 'std::basic_ofstream', 'std::basic_ostream<char>', 'std::basic_ofstream<char>'):
            m[c + '::write'] = write
            m[c + '::flush'] = const(None)


class RcsModel(Files, RunModel):
    """surfaces recorded by several processes: the faces of process r are named r<r>…"""

    def __init__(self, *a, **kw):
        self.bins = kw.pop('bins', {})
        self.listing = kw.pop('listing', {})
        self.torn = []
        self.doc = kw.pop('doc', None)
        self.forms = {}
        self.nelem = kw.pop('nelem', 1)
        RunModel.__init__(self, *a, **kw)

    def qpos(self, f, q):
        return [sym('x_%s_%d_%d' % (f.name, d, q)) for d in range(self.dim)]

    def space_order(self, ip, o):
        fec = ip.read(ip.deref(o.f['#fec'])) if isinstance(o, Obj) and '#fec' in o.f else None
        t = ip.term(fec.f['#order']) if isinstance(fec, Obj) and '#order' in fec.f else None
        return None if t is None or t.op != 'num' else int(val(t))

    def ndofs(self, ip, o, v=True):
        k = self.space_order(ip, o)
        if k is None:
            return RunModel.ndofs(self, ip, o, v)
        return len(self.mesh_of(ip, o)) * (k + 1)

    def tag(self, ip, fesptr):
        o = ip.read(ip.deref(fesptr))
        mo = ip.read(ip.deref(o.f['#mesh']))
        t = mo.f.get('#tag')
        if t is None or t.op != 'str':
            raise AnalysisError('mesh of a surface not understood')
        return t.args[0]

    def models(self):
        m = RunModel.models(self)
        self.binary_models(m)

        def const(t):
            return lambda ip, e, *r: t
        base = m['construct']

        def cons(ip, e, T):
            T0 = T.replace('const ', '')
            if T0 in ('mfem::ParMesh', 'mfem::Mesh') and e['args']:
                for a in e['args']:
                    v = ip.lval_or_val(a)
                    v = ip.read(v) if isinstance(v, LV) else v
                    if isinstance(v, Obj) and '#tag' in v.f:
                        return Obj(T0, v.base, dict(v.f))
            return base(ip, e, T)
        m['construct'] = cons

        def load(ip, e, *r):
            p = self.text(ip, ip.term(ip.eval(e['args'][0])))
            t = re.search(r'rank(\d+)/mesh$', p)
            o = self.obj('mfem::Mesh')
            tag = 'r%s_' % t.group(1) if t else 'case'
            self.loaded.append(p)
            ids = range(self.nelem)
            bd = sorted({f.attr for f in self.dgfaces})
            return Obj(o.cls, o.base, dict(o.f, **{'#tag': string(tag), '#els': self.elements(ids, [1] * self.nelem), 'bdr_attributes': vec([num(x) for x in bd])}))
        for c in ('mfem::Mesh', 'mfem::ParMesh'):
            m[c + '::LoadFromFile'] = load
        m['maxwell::driver::parseJSONfile'] = lambda ip, e, w=None: js(self.doc)

        import models as M

        def tostr(ip, e, w=None):
            if e['args'][0].get('t') == 'i':
                return M._to_string(ip, e)
            t = ip.term(ip.eval(e['args'][0]))
            return string(fixed6(t))
        m['std::to_string'] = tostr

        # -------------------------------------------------------- linear forms
        def key(lv):
            return lv.alts[0][1:]

        def addi(ip, e, lv, w):
            g = ip.eval(e['args'][0])
            mk_ = NULL
            if len(e['args']) > 1:
                a = ip.lval_or_val(e['args'][1])
                mk_ = Ptr(a) if isinstance(a, LV) else Ptr(cell(ip, a))
            self.forms.setdefault(key(lv), []).append((self.lastfes, g, mk_))

        def assemble(ip, e, lv, w):
            v = ip.read(lv)
            n = int(val(ip.size_of(v)))
            out = [ip.term(ip.getc(v, ('i', num(i)))) for i in range(n)]
            for fes, g, mk_ in self.forms.get(key(lv), []):
                tag = self.tag(ip, fes)
                for f in self.dgfaces:
                    if not f.name.startswith(tag) or f.el[1] is not None or not self.marked(ip, mk_, f):
                        continue
                    ev = self.face_vector(ip, g, f)
                    for i, x in enumerate(ev):
                        k = f.el[0] * len(ev) + i
                        if not 0 <= k < n:
                            raise AnalysisError('element vector outside a linear form')
                        out[k] = add(out[k], x)
            ip.write(lv, vec(out))
        for c in LF:
            m[c + '::AddBdrFaceIntegrator'] = addi
            m[c + '::Assemble'] = assemble

        def ceval(ip, e, lv, w):
            c = ip.read(lv)
            a = ip.lval_or_val(e['args'][0])
            tr = ip.read(a) if isinstance(a, LV) else a
            b = ip.lval_or_val(e['args'][1])
            pt = ip.read(b) if isinstance(b, LV) else b
            f = self.face_named(ip, tr)
            if f is None or not isinstance(pt, Obj) or '#q' not in pt.f or '#s' in pt.f or not isinstance(c, Obj) or '#fn' not in c.f:
                raise AnalysisError('coefficient at a face point not understood')
            x = cell(ip, vec(self.qpos(f, int(val(pt.f['#q'])))))
            return ip.term(ip.invoke(c.f['#fn'], [x]))
        for c in ('mfem::Coefficient', 'mfem::FunctionCoefficient'):
            m[c + '::Eval'] = ceval
        return m

    def face_vector(self, ip, integ, f):
        lv = ip.deref(integ)
        o = ip.read(lv)
        if not isinstance(o, Obj):
            raise AnalysisError('face integrator not understood: %r' % (o,))
        fns = [x for c in [o.cls] + list(ip.p.bases(o.cls)) for x in ip.p.fn.values() if x.get('cls') == c and x['name'] == 'AssembleRHSElementVect' and x.get('body') is not None and len(x['params']) == 3 and 'FaceElementTransformations' in x['params'][1]['T']]
        if not fns:
            raise AnalysisError('no face assembly in %s' % o.cls)
        el = cell(ip, Obj('mfem::FiniteElement', sym('fe_%s_0' % f.name, None), {'#face': string(f.name), '#side': ZERO}))
        face = cell(ip, Obj('mfem::ElementTransformation', sym('face_%s' % f.name, None), {'#face': string(f.name)}))
        tr = cell(ip, Obj('mfem::FaceElementTransformations', sym('ft_%s' % f.name, None), {'Elem1No': num(f.el[0]), 'Elem2No': num(-1), '#face': string(f.name), 'Face': Ptr(face)}))
        ev = cell(ip, Arr('seq', None, ZERO, {}, UNDEF))
        ip.call_function(fns[0], [el, tr, ev], lv)
        r = ip.read(ev)
        n = ip.size_of(r)
        if n.op != 'num' or int(val(n)) != self.nd:
            raise AnalysisError('element vector of %s has an unexpected size' % o.cls)
        return [ip.term(ip.getc(r, ('i', num(i)))) for i in range(self.nd)]


def record(dg, r, ts, cut=None):
    """surface file of one process"""
    nd = dg.nd * dg.nelem
    faces = [f for f in dg.dgfaces if f.name.startswith('r%d_' % r) and f.attr == 201]
    d = [(4, num(x)) for x in (dg.dim, nd, len(faces), len(faces) * dg.nq, 1)]
    for f in faces:
        for q in range(dg.nq):
            d += [(8, x) for x in dg.qpos(f, q)]
    for f in faces:
        for q in range(dg.nq):
            d += [(8, dg.normal(f, c, q)) for c in range(3)]
    d += [(8, dg.wq(f, q)) for f in faces for q in range(dg.nq)]
    for k, t in enumerate(ts):
        d.append((8, num(t)))
        for F, c in COMP:
            d += [(8, field_at(dg, r, k, F, c, i)) for i in range(nd)]
    return d if cut is None else d[:cut]


def field_at(dg, r, k, F, c, i):
    if dg.comps is not None and (F, c) not in dg.comps:
        return ZERO
    return sym('%s%d_r%d_t%d_%d' % (F, c, r, k, i))


def far_field(dg, ranks, ts, f, th, ph):
    """potential radiated towards a direction at a frequency (in wavelengths per unit)"""
    k = mul(num(2), mul(PI, f))
    st, ct, sp, cp = f_sin(th), f_cos(th), f_sin(ph), f_cos(ph)
    rh = [mul(st, cp), mul(st, sp), ct]
    thv = [mul(ct, cp), mul(ct, sp), neg(st)]
    phv = [neg(sp), cp, ZERO]
    N = [ZERO] * 3
    L = [ZERO] * 3
    for r in ranks:
        for fc in dg.dgfaces:
            if not fc.name.startswith('r%d_' % r) or fc.attr != 201:
                continue
            for q in range(dg.nq):
                x = dg.qpos(fc, q)
                arg = ZERO
                for d in range(dg.dim):
                    arg = add(arg, mul(x[d], rh[d]))
                arg = mul(k, arg)
                ker = add(f_cos(arg), mul(IMAG, f_sin(arg)))
                n = [dg.normal(fc, d, q) for d in range(3)]
                E, H = [], []
                for F, out in (('E', E), ('H', H)):
                    for c in range(3):
                        t = ZERO
                        for i in range(dg.nd):
                            ft = ZERO
                            for j, tm in enumerate(ts):
                                a = mul(num(2), mul(PI, mul(f, num(tm))))
                                ft = add(ft, mul(field_at(dg, r, j, F, c, fc.el[0] * dg.nd + i), sub(f_cos(a), mul(IMAG, f_sin(a)))))
                            t = add(t, mul(dg.shape(fc, 0, i, q), ft))
                        out.append(mul(ker, mul(dg.wq(fc, q), div(t, num(len(ts))))))
                for i in range(3):
                    j, l = (i + 1) % 3, (i + 2) % 3
                    N[i] = add(N[i], sub(mul(n[j], H[l]), mul(n[l], H[j])))
                    L[i] = sub(L[i], sub(mul(n[j], E[l]), mul(n[l], E[j])))

    def dot(a, b):
        return add(mul(a[0], b[0]), add(mul(a[1], b[1]), mul(a[2], b[2])))

    def norm(z):
        return add(mul(f_re(z), f_re(z)), mul(f_im(z), f_im(z)))
    a = add(dot(phv, L), dot(thv, N))
    b = sub(dot(thv, L), dot(phv, N))
    c = div(mul(k, k), num(32) if dg.dim == 2 else mul(num(32), mul(PI, PI)))
    return mul(c, add(norm(a), norm(b)))


def pulse_power(ts, f, spread, mean, carrier):
    z = ZERO
    for t in ts:
        x = sub(num(t), f_abs(mean))
        g = f_exp(neg(div(mul(x, x), mul(num(2), mul(spread, spread)))))
        if carrier is not None:
            g = mul(g, f_cos(mul(num(2), mul(PI, mul(carrier, x)))))
        a = mul(num(2), mul(PI, mul(f, num(t))))
        z = add(z, mul(g, sub(f_cos(a), mul(IMAG, f_sin(a)))))
    z = div(z, num(len(ts)))
    return div(add(mul(f_re(z), f_re(z)), mul(f_im(z), f_im(z))), num(2))


# ------------------------------------------------------------- RCS results
F1, F2 = Fraction(3, 7), Fraction(5, 11)
TS = [Fraction(1, 2), Fraction(5, 4), Fraction(9, 4)]


def fixed6(t):
    import math
    def go(t):
        if t.op == 'num':
            return float(val(t))
        if t is PI:
            return math.pi
        if t.op == 'poly':
            s = 0.0
            for m, c in t.args:
                x = float(c)
                for a, e in m:
                    x *= go(a) ** float(e)
                s += x
            return s
        raise AnalysisError('printed number not resolved: %s' % show(t)[:100])
    return '%f' % go(t)


def wave_json(**mag):
    return dict(type='planewave', polarization=[num(0), num(1), num(0)], propagation=[num(3), num(4), num(0)], tags=[num(301)], magnitude=mag)


def dipole_json():
    return dict(type='dipole', tags=[num(301)], magnitude=dict(length=ONE, gaussianStart=ONE, gaussianSpread=ONE, spread=num(77), mean=[num(7), num(7), num(7)], frequency=num(12)))


BASE = 'out/probe'


def model(c):
    dim, ranks = c['dim'], c.get('ranks', (0,))
    faces = []
    for r in ranks:
        for j in range(c.get('nfaces', 1)):
            faces.append(Face('r%d_f%d' % (r, j), (0, None), 201))
        faces.append(Face('r%d_out' % r, (0, None), 3))
    faces += [Face('casea', (0, None), 301), Face('caseb', (0, None), 301), Face('casec', (0, None), 4)]
    xs = [Fraction(-9), Fraction(7, 2), Fraction(1, 3), Fraction(-2), Fraction(5, 7), Fraction(-1, 2), Fraction(3)]
    verts = [tuple(xs[(3 * i + d) % len(xs)] + i for d in range(dim)) for i in range(8)]
    fv = [[(k + i) % 8 for i in range(dim)] for k, f in enumerate(faces)]
    dg = RcsModel(dim, faces, verts, [tuple(range(dim + 1))], fv, nd=c.get('nd', 1), nq=c.get('nq', 1), doc={'sources': c.get('sources', [given()[0]]), 'model': {'filename': 'case.msh'}})
    dg.comps = c.get('comps')
    dg.loaded = []
    dg.listing = {BASE: [('rank%d' % r, True) for r in reversed(ranks)] + [('farfield', True), ('rank2.bak', True), ('rank3', False), ('notes', False), ('xrank4', True)]}
    for r in ranks:
        if not c.get('lost'):
            dg.bins['%s/rank%d/surface_data.bin' % (BASE, r)] = record(dg, r, c.get('ts', TS[:2]), c.get('cut'))
    dg.dirs |= {'out', BASE, BASE + '/farfield', BASE + '/rcs'}
    return dg


def given():
    """pulse whose centre is given: its document, width, centre and carrier"""
    s, m = sym('+s'), sym('+m')
    return wave_json(spread=s, mean=[neg(m), ZERO, num(5)]), s, mul(num(Fraction(-3, 5)), m), None


def phase(dg, tag):
    """earliest arrival of a wave along (3, 4, 0) at the tagged faces of the case mesh"""
    out = []
    for f, vs in zip(dg.bfaces, dg.fverts):
        if f.attr == tag:
            out.append(sum(dg.verts[v][0] * Fraction(3, 5) + dg.verts[v][1] * Fraction(4, 5) for v in vs) / len(vs))
    return min(out)


def process(ctx, p, dg, freqs, angles, maxtime=None):
    ip = ctx.interp(p, models=dg.models())
    fs = cell(ip, vec([mul(num(f), C_SI) for f in freqs]))
    an = cell(ip, vec([Obj('maxwell::SphericalAngles', None, {'theta': a, 'phi': b}) for a, b in angles]))
    mt = num(maxtime) if maxtime is not None else mk('app', ('nullopt',))
    f = find_ctor(p, PP, 5)
    lv = cell(ip, Obj(f['cls'], None, {}))
    v, thr = run(ip, f, [string('out/probe'), string('cases/case.json'), fs, an, cell(ip, mt)], lv)
    return ip, lv, thr


def cross_section(ctx):
    p = ctx.prog(UNITS)
    ctx.rule('values', 'the cross section and the radiated potential are those of the surface fields of all processes for the pulse of the case')
    ctx.rule('refused', 'what has no answer is refused and leaves earlier results alone, what has one is accepted')
    ctx.rule('files', 'one file of each kind per direction, one line per frequency, and only the two result directories are replaced')
    ctx.rule('input', 'what is read is what was recorded')
    half = div(PI, num(2))
    cls = [f for f in p.fn.values() if f.get('cls') == PP and f['name'] == 'computeAndWriteResults' and f.get('body') is not None]
    w = where(cls[0] if cls else find_ctor(p, PP, 5))
    A3 = [(num(Fraction(3, 4)), num(Fraction(1, 3)))]
    A2 = [(half, num(Fraction(1, 3)))]
    s = sym('+s')
    f0 = sym('+f')
    late = mul(num(5), mul(s, power(num(2), Fraction(1, 2))))
    cases = []
    for dim, A in ((3, A3), (2, A2)):
        def case(what, **kw):
            kw.update(dim=dim, what='%dD, %s' % (dim, what))
            kw.setdefault('angles', A)
            cases.append(kw)
        case('all components')
        case('several unknowns and quadrature points', nd=2, nq=2, ts=TS[:1], comps=[('E', 0), ('H', 1)])
        case('two points and two snapshots', nq=2, comps=[('E', 1)])
        case('two processes and two snapshots', ranks=(0, 1), comps=[('H', 1)])
        case('two faces', nfaces=2, ts=TS[:1], comps=[('E', 0), ('H', 1)])
        case('three processes', ranks=(0, 1, 10), ts=TS[:1], comps=[('E', 2), ('H', 0), ('H', 1)])
        B = [(num(Fraction(5, 4)), num(Fraction(1, 3))), (num(Fraction(3, 4)), num(2))] if dim == 3 else [(half, num(2)), (half, num(Fraction(-1, 2)))]
        case('several frequencies and directions', freqs=[F1, F2], angles=A + B, comps=[('E', 1), ('E', 2), ('H', 2)])
        case('four snapshots', ts=TS + [Fraction(4)], comps=[('E', 2)])
        case('limited to the third snapshot', ts=TS + [Fraction(4)], comps=[('E', 1)], max=TS[2])
        case('limited to between two snapshots', ts=TS, comps=[('E', 1)], max=Fraction(2))
        case('centre found from the tagged surface', comps=[('E', 1)], sources=[wave_json(spread=s)], mean=lambda dg: sub(num(phase(dg, 301)), late))
        far = dict(wave_json(spread=s))
        del far['tags']
        case('centre neither given nor to be found', comps=[('E', 1)], sources=[far], mean=lambda dg: neg(late))
        case('modulated pulse', comps=[('E', 1)], sources=[wave_json(spread=s, mean=[neg(sym('+m')), ZERO, ZERO], frequency=mul(f0, C_SI))], carrier=f0)
        case('other sources in the case', comps=[('E', 1)], sources=[dipole_json(), given()[0], dipole_json()])
        case('nothing recorded', lost=True, refuse=True)
        case('no process', ranks=(), refuse=True)
        case('no plane wave', sources=[dipole_json()], refuse=True)
        case('limit before the first snapshot', max=Fraction(1, 4), refuse=True)
        if dim == 2:
            case('direction out of the plane', angles=[(num(Fraction(3, 2)), ZERO)], refuse=True)
            case('direction slightly out of the plane', angles=A + [(add(half, num(Fraction(1, 10 ** 6))), ZERO)], refuse=True)
        full = len(record(model(dict(dim=dim)), 0, TS[:1]))
        for k in (1, 3, 6) if ctx.tier != 'thorough' else range(1, 7):
            case('recording cut %d values into the second snapshot' % k, ts=TS[:2], cut=full + k, real=TS[:1], comps=[('E', 1), ('H', 2)])
        for k in (0, 3, 5, 5 + dim, full - 8):
            case('recording cut after %d values, before the first snapshot' % k, cut=k, refuse=True)
    for c in cases:
        what = c['what']
        dg = model(c)
        freqs = c.get('freqs', [F1])
        ip, lv, thr = process(ctx, p, dg, freqs, c['angles'], c.get('max'))
        if c.get('refuse'):
            ctx.hold('refused', thr is TRUE, w, '%s: not refused' % what)
            ctx.hold('refused', not dg.gone and not dg.opened, w, '%s: refused after %s was removed or replaced' % (what, (dg.gone or dg.opened)[:2]))
            continue
        if not ctx.hold('refused', thr is FALSE, w, '%s: refused' % what):
            continue
        ctx.hold('input', not dg.torn, w, '%s: %s' % (what, dg.torn[:3]))
        ts = [t for t in c.get('real', c.get('ts', TS[:2])) if 'max' not in c or t <= c['max']]
        for pc, path, n in dg.gone:
            ctx.hold('files', path in (BASE + '/farfield', BASE + '/rcs') and n == 0, w, '%s: %s is removed' % (what, path))
        gone = {path for pc, path, n in dg.gone}
        ctx.hold('files', {BASE + '/farfield', BASE + '/rcs'} <= gone, w, '%s: results of an earlier request are left among the new ones (removed: %s)' % (what, sorted(gone)))
        ctx.hold('files', len(dg.files) == 2 * len(c['angles']) and not dg.nodir, w, '%s: files written: %s' % (what, sorted(dg.files)[:8]))
        for th, ph in c['angles']:
            sfx = 'Th_%s_Phi_%s_dgtd.dat' % (fixed6(th), fixed6(ph))
            got = {}
            for kind in ('farfield', 'rcs'):
                path = '%s/%s/%sData_%s' % (BASE, kind, kind, sfx)
                if not ctx.hold('files', path in dg.files, w, '%s: no file %s (files: %s)' % (what, path, sorted(dg.files)[:6])):
                    continue
                rows = [values(l) for l in lines(dg.files[path])[1:]]
                ctx.hold('files', len(rows) == len(freqs) and all(r is not None and len(r) == 5 for r in rows), w, '%s: layout of %s' % (what, path))
                got[kind] = rows
            for k, f in enumerate(freqs):
                pot = far_field(dg, c.get('ranks', (0,)), ts, num(f), th, ph)
                P = pulse_power(ts, num(f), s, c['mean'](dg) if 'mean' in c else mul(num(Fraction(-3, 5)), sym('+m')), c.get('carrier'))
                kk = mul(num(2), mul(PI, num(f)))
                rcs = div(mul(pot, div(num(4), kk) if c['dim'] == 2 else mul(num(4), PI)), P)
                lam = num(1 / f)
                for kind, v in (('farfield', pot), ('rcs', rcs)):
                    if kind not in got or k >= len(got[kind]) or got[kind][k] is None:
                        continue
                    row = got[kind][k]
                    for g, x, n in zip(row, [th, ph, mul(num(f), C_SI), v, lam if c['dim'] == 2 else mul(lam, lam)], ['theta', 'phi', 'frequency', 'value', 'normalisation']):
                        ctx.equal('files' if n != 'value' else 'values', g, x, w, trials=6, what='%s: %s of %s, frequency %s, direction %s' % (what, n, kind, f, sfx))
    requests(ctx, p)


def spaced(a, b, n):
    return [a] if n == 1 else [add(a, mul(num(Fraction(i, n - 1)), sub(b, a))) for i in range(n)]


def requests(ctx, p):
    ctx.rule('request', 'a request is answered for evenly spaced frequencies and all combinations of evenly spaced angles, ends included, for every recorded surface of the case')
    f = fn(p, 'runRCSPostProcessing', 1)
    w = where(f)
    absent = object()
    for nf, nt, nph, mt, probes in ((3, 2, 3, sym('t'), ['near', 'far']), (1, 1, 1, NULL, ['near']), (2, 1, 4, absent, ['near']), (4, 3, 1, absent, []), (0, 1, 1, absent, ['near']), (1, 1, 1, absent, None)):
        what = '%d frequencies, %d x %d angles' % (nf, nt, nph)
        dg = model(dict(dim=3))
        rng = lambda k, n: dict(start=sym(k + 'a'), end=sym(k + 'b'), steps=num(n))
        req = dict(runmode='mpi', casename='ball', frequencies=rng('f', nf), angles=dict(theta=rng('th', nt), phi=rng('ph', nph)))
        if mt is not absent:
            req['max_time'] = mt
        dg.doc = {'probes': {'rcssurface': [{'name': n} for n in probes]} if probes is not None else {'point': []}}
        m = dg.models()
        runs = []

        def made(ip, e, T):
            a = [ip.lval_or_val(x) for x in e['args']]
            runs.append((ip.abs_pc(), [ip.read(x) if isinstance(x, LV) else x for x in a]))
            return Obj(PP, sym('pp', None), {})
        base = m['construct']
        m['construct'] = lambda ip, e, T: made(ip, e, T) if T.replace('const ', '') == PP else base(ip, e, T)
        asked = []

        def parse(ip, e, *r):
            asked.append(1)
            return js(req)
        for k in ('nlohmann::basic_json::parse', 'nlohmann::json_abi_v3_11_3::basic_json::parse', 'nlohmann::json::parse'):
            m[k] = parse
        dg.bins['in.json'] = []
        ip = ctx.interp(p, models=m, opaque={PP})
        v, thr = run(ip, f, [string('in.json')])
        ctx.anchor(asked, 'the request is not read from its file')
        if probes is None:
            ctx.hold('request', thr is TRUE, w, 'a case without recorded surfaces is not refused')
            continue
        ctx.hold('request', thr is FALSE and len(runs) == len(probes) and all(r[0] is TRUE for r in runs), w, '%s: %d surfaces processed of %d' % (what, len(runs), len(probes)))
        for n, (pc, a) in zip(probes, runs):
            ctx.hold('request', ip.term(a[0]) is string('./Exports/mpi/ball/RCSSurface/%s/' % n), w, '%s: results of %s are looked for in %s' % (what, n, show(ip.term(a[0]))))
            ctx.hold('request', ip.term(a[1]) is string('./testData/maxwellInputs/ball/ball.json'), w, '%s: case read from %s' % (what, show(ip.term(a[1]))))
            fs = spaced(sym('fa'), sym('fb'), nf) if nf else []
            an = [(t, q) for t in spaced(sym('tha'), sym('thb'), nt) for q in spaced(sym('pha'), sym('phb'), nph)]
            gn = ip.size_of(a[2])
            ctx.hold('request', gn is num(nf), w, '%s: %s frequencies' % (what, show(gn)))
            if gn is num(nf):
                for i, x in enumerate(fs):
                    ctx.equal('request', ip.term(ip.getc(a[2], ('i', num(i)))), x, w, what='%s: frequency %d' % (what, i))
            gn = ip.size_of(a[3])
            ctx.hold('request', gn is num(len(an)), w, '%s: %s directions' % (what, show(gn)))
            if gn is num(len(an)):
                got = [(ip.term(ip.getc(o, ('f', 'theta'))), ip.term(ip.getc(o, ('f', 'phi')))) for o in (ip.getc(a[3], ('i', num(i))) for i in range(len(an)))]
                for i, (g, x) in enumerate(zip(sorted(got, key=lambda x: (show(x[0]), show(x[1]))), sorted(an, key=lambda x: (show(x[0]), show(x[1]))))):
                    ctx.equal('request', g[0], x[0], w, what='%s: theta of direction %d' % (what, i))
                    ctx.equal('request', g[1], x[1], w, what='%s: phi of direction %d' % (what, i))
            g = ip.term(a[4])
            want = mk('app', ('nullopt',)) if mt is absent or mt is NULL else mt
            ctx.hold('request', g is want, w, '%s: time limit is %s' % (what, show(g)))


CHECKS = {'P22': cross_section}
