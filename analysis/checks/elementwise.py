"""Element-by-element (Hesthaven) operator: rates from stored element data."""
from fw import *
from terms import *
from checks.common import *
from checks.dg import DG, Face, OPUNITS, PFES, make, unknowns
from checks.tfsf import GeoDG, FES
from checks.model import bdr_enum
from absint import It, END_I, template_args

HEST = 'maxwell::HesthavenEvolution'
CONN = 'maxwell::Connectivities'
SUBS = ('mfem::ParSubMesh', 'mfem::SubMesh')
TYPES = {'SEGMENT': 1, 'TRIANGLE': 2, 'QUADRILATERAL': 3, 'TETRAHEDRON': 4, 'HEXAHEDRON': 5}
SHAPE = {   # dimension, faces, nodes per element and per face at order 1
    'TRIANGLE': (2, 3, 3, 2),
    'QUADRILATERAL': (2, 4, 4, 2),
    'TETRAHEDRON': (3, 4, 4, 3),
}
# weight of an element and of its faces per unit of measure
SCALE = {'TRIANGLE': (2, 1), 'QUADRILATERAL': (1, 1), 'TETRAHEDRON': (6, 2)}


class HestModel(GeoDG):
    """a mesh of elements of one shape; displaced: {element: (node, coordinate, by)}"""
    shape_, displaced, conn, twin = 'TRIANGLE', {}, None, {}
    threshold = Fraction(1, 100000)
    measure = None      # of the element of a reference mesh being assembled

    def size(self):
        return SHAPE[self.shape_]

    def at(self, e, i, d, straight):
        if d >= self.dim:
            return ZERO
        e, i = self.twin.get((e, i), (e, i))
        t = num(Fraction(10 * e + 3 * i + d))
        if not straight and e in self.displaced and self.displaced[e][:2] == (i, d):
            t = add(t, num(self.displaced[e][2]))
        return t

    def jac(self, e):
        return mul(num(SCALE[self.shape_][0]), self.volume(e))

    def area(self, e, f):
        return sym('+a%d_%d' % (e, f))

    def fweight(self, e, f):
        return mul(num(SCALE[self.shape_][1]), self.area(e, f))

    def ortho(self, e, f, d):
        return sym('n%d_%d_%d' % (e, f, d)) if d < self.dim else ZERO

    def models(self):
        m = GeoDG.models(self)
        base = m['construct']
        dim, nf, nd, nfn = self.size()

        def const(t):
            return lambda ip, e, *r: t

        def int_(ip, e, k=0):
            t = ip.term(ip.eval(e['args'][k]))
            if t.op != 'num':
                raise AnalysisError('mesh entity not resolved in %s: %s' % (e.get('name'), show(t)[:200]))
            return int(val(t))

        def els(ip, lv):
            return [j for j, _ in self.els(ip, ip.read(lv))]

        def cons(ip, e, T):
            T = T.replace('const ', '')
            if T == CONN:
                return self.connect(ip)
            if T in ('mfem::ParMesh',) + SUBS and len(e['args']) == 1:
                v = ip.eval(e['args'][0])
                if isinstance(v, Obj) and '#els' in v.f:
                    return Obj(T, v.base, dict(v.f))
            if T in ('mfem::L2_FECollection', 'mfem::DG_FECollection'):
                return Obj(T, sym('fec', None), {})
            return base(ip, e, T)
        m['construct'] = cons
        MESH = ('mfem::Mesh', 'mfem::ParMesh') + SUBS
        cut = m['mfem::SubMesh::CreateFromDomain']
        for c in SUBS:
            m[c + '::CreateFromDomain'] = cut
        for c in MESH:
            for k in ('GetNE', 'SetAttribute', 'GetAttribute', 'SetBdrAttribute', 'GetBdrAttribute', 'GetNBE'):
                if 'mfem::Mesh::' + k in m:
                    m[c + '::' + k] = m['mfem::Mesh::' + k]
            m[c + '::Dimension'] = m[c + '::SpaceDimension'] = const(num(dim))
            m[c + '::GetElementType'] = m[c + '::GetElementGeometry'] = const(num(TYPES[self.shape_]))

            def single(ip, lv):
                k = els(ip, lv)
                if len(k) != 1:
                    raise AnalysisError('faces of a mesh of %d elements' % len(k))
                return k[0]
            m[c + '::GetNEdges'] = const(num(nf)) if dim == 2 else const(num(6))
            m[c + '::GetNFaces'] = const(num(nf)) if dim == 3 else const(ZERO)
            m[c + '::GetNumFaces'] = const(num(nf))
            m[c + '::GetElementVolume'] = lambda ip, e, lv, w: self.volume(els(ip, lv)[int_(ip, e)])

            def straighten(ip, e, lv, w):
                if ip.term(ip.eval(e['args'][0])) is not ONE:
                    raise AnalysisError('mesh turned into one of another order')
                ip.write(lv.ext(('f', '#straight')), ONE)
            m[c + '::SetCurvature'] = straighten

            def nodes(ip, e, lv, w):
                if not e['args']:
                    return NULL
                g, k = ip.lval(e['args'][0]), els(ip, lv)
                s = '#straight' in ip.read(lv).f
                ip.write(g, vec([self.at(j, i, d, s) for d in range(3) for j in k for i in range(nd)]))
            m[c + '::GetNodes'] = nodes

            def etr(ip, e, lv, w):
                return Ptr(cell(ip, Obj('mfem::ElementTransformation', sym('et', None), {'#el': num(els(ip, lv)[int_(ip, e)])})))
            m[c + '::GetElementTransformation'] = etr

            def ftr(ip, e, lv, w):
                return Ptr(cell(ip, Obj('mfem::ElementTransformation', sym('ft', None), {'#el': num(single(ip, lv)), '#face': num(int_(ip, e))})))
            m[c + '::GetEdgeTransformation' if dim == 2 else c + '::GetFaceTransformation'] = ftr
        for c in ('mfem::ElementTransformation', 'mfem::IsoparametricTransformation'):
            def weight(ip, e, lv, w):
                o = ip.read(lv)
                k = int(val(o.f['#el']))
                return self.fweight(k, int(val(o.f['#face']))) if '#face' in o.f else self.jac(k)
            m[c + '::Weight'] = weight
            m[c + '::GetGeometryType'] = const(ONE)
            m[c + '::OrderW'] = m[c + '::Order'] = const(ONE)
            m[c + '::SetIntPoint'] = const(None)
            m[c + '::Jacobian'] = lambda ip, e, lv, w: cell(ip, Obj('mfem::DenseMatrix', sym('jac', None), {'#el': ip.read(lv).f['#el'], '#face': ip.read(lv).f['#face']}))

        def ortho(ip, e, w=None):
            a = ip.lval_or_val(e['args'][0])
            o = ip.read(a) if isinstance(a, LV) else a
            ip.write(ip.lval(e['args'][1]), vec([self.ortho(int(val(o.f['#el'])), int(val(o.f['#face'])), d) for d in range(dim)]))
        m['mfem::CalcOrtho'] = ortho
        m['mfem::IntegrationRules::Get'] = lambda ip, e, lv, w: cell(ip, Obj('mfem::IntegrationRule', sym('ir', None), {}))
        for c in (PFES, FES):
            m[c + '::GetNF'] = const(num(nf))
            m[c + '::GetNBE'] = const(num(len(self.bdr)))
            m[c + '::FEColl'] = lambda ip, e, lv, w: Ptr(cell(ip, Obj('mfem::L2_FECollection', sym('fec', None), {})))
        for c in ('mfem::L2_FECollection', 'mfem::DG_FECollection', 'mfem::FiniteElementCollection'):
            m[c + '::GetOrder'] = const(ONE)
        m['mfem::FiniteElement::GetGeomType'] = const(num(TYPES[self.shape_]))
        m['mfem::TimeDependentOperator::GetTime'] = const(sym('t'))

        # ------------------------------------------------- reference matrices
        def ref_mesh(n, measure):
            els = {num(i): Obj('mfem::Element', None, {'#id': num(i), '#attr': ONE}) for i in range(n)}
            return Obj('mfem::Mesh', sym('reference', None), {'#els': Arr('seq', None, num(n), els, None), '#measure': measure, 'attributes': vec([ONE]), 'bdr_attributes': vec([ONE])})

        def cartesian(ip, e, w=None):
            a = [ip.term(ip.eval(x)) for x in e['args']]
            nx, ny, T = (int(val(x)) for x in a[:3])
            k = nx * ny * {TYPES['TRIANGLE']: 2, TYPES['QUADRILATERAL']: 1}[T]
            return ref_mesh(k, div(mul(a[4], a[5]), num(k)))
        m['mfem::Mesh::MakeCartesian2D'] = cartesian

        def vertex(ip, e, lv, w):
            o = ip.read(lv)
            x = [ip.term(ip.eval(a)) for a in e['args']]
            v = o.f.get('#vertices', ())
            ip.write(lv, Obj(o.cls, o.base, {**o.f, '#vertices': v + (tuple(x),)}))
            return num(len(v))
        m['mfem::Mesh::AddVertex'] = vertex

        def tet(ip, e, lv, w):
            o = ip.read(lv)
            v = [o.f['#vertices'][int(val(ip.term(ip.eval(a))))] for a in e['args'][:4]]
            d = [[val(sub(v[k][c], v[0][c])) for c in range(3)] for k in (1, 2, 3)]
            det = sum(d[0][c] * (d[1][(c + 1) % 3] * d[2][(c + 2) % 3] - d[1][(c + 2) % 3] * d[2][(c + 1) % 3]) for c in range(3))
            if '#measure' in o.f:
                raise AnalysisError('reference mesh of several tetrahedra')
            ip.write(lv, ref_mesh(1, num(abs(Fraction(det)) / 6)))
            return ZERO
        m['mfem::Mesh::AddTet'] = tet

        def part(ip, e, *r):
            a = ip.lval_or_val(e['args'][0])
            o = ip.read(a) if isinstance(a, LV) else a
            s = cut(ip, e, *r)
            if '#measure' in o.f:
                s = Obj(s.cls, s.base, {**s.f, '#measure': o.f['#measure']})
            return s
        for c in SUBS:
            m[c + '::CreateFromDomain'] = part
        m['maxwell::assembleBoundaryMarkers'] = lambda ip, e, w=None: vec([vec([ONE if i == j else ZERO for j in range(nf)]) for i in range(nf)])

        def emat(ip, e, w=None):
            a = ip.lval_or_val(e['args'][0])
            mesh = ip.read(ip.deref(ip.read(a).f['#mesh']))
            if '#measure' not in mesh.f or len(self.els(ip, mesh)) != 1:
                raise AnalysisError('face matrices of something else than one reference element')
            # the face integrator weighs its points twice; the points of a segment
            # weigh one in all, those of a triangle one half
            k = num(2 if dim == 2 else 1)
            return dense(nd, nf * nfn, lambda i, j: mul(k, sym('EM_%d_%d' % (i, j))))
        m['maxwell::assembleEmat'] = emat

        def dense(r, c, f):
            return Arr('seq', None, mk('app', ('dim', num(r), num(c)), 'n'), {mk('app', ('ij', num(i), num(j))): f(i, j) for i in range(r) for j in range(c)}, UNDEF)

        def derivative(ip, e, lv, w):
            d = int_(ip, e)
            fes = ip.read(lv).f
            o = [ip.read(ip.deref(v)) if isinstance(v, Ptr) else v for v in fes.values()]
            o = [v for v in o if isinstance(v, Obj) and v.cls in (PFES, FES)]
            if len(o) != 1:
                raise AnalysisError('space of the derivative not understood')
            k = [j for j, _ in self.els(ip, ip.read(ip.deref(o[0].f['#mesh'])))]
            if len(k) != 1:
                raise AnalysisError('derivative of a mesh of %d elements' % len(k))
            return Ptr(cell(ip, Obj('mfem::ParBilinearForm', None, {'spmat': self.matrix(nd, nd, {i: {j: self.deriv(d, k[0], i, j) for j in range(nd)} for i in range(nd)})})))
        m['maxwell::DGOperatorFactory::buildDerivativeSubOperator'] = derivative
        n = 6 * self.ne * nd

        def whole(ip, e, lv, w):
            return Ptr(cell(ip, self.matrix(n, n, self.global_rows())))
        m['maxwell::DGOperatorFactory::buildGlobalOperator'] = whole

        def setrow(ip, e, lv, w):
            i = int_(ip, e)
            o = ip.read(lv)
            c, v = ip.eval(e['args'][1]), ip.eval(e['args'][2])
            rows = self.rows(ip, o)
            rows[i] = {int(val(ip.term(ip.getc(c, ('i', num(k)))))): ip.term(ip.getc(v, ('i', num(k)))) for k in range(int(val(ip.size_of(c))))}
            ip.write(lv, self.matrix(int(val(o.f['h'])), int(val(o.f['w'])), rows))
        m['mfem::SparseMatrix::SetRow'] = setrow

        def subvec(ip, e, lv, w):
            d, x = ip.eval(e['args'][0]), ip.eval(e['args'][1])
            k = ip.size_of(d)
            if k.op != 'num':
                raise AnalysisError('unknowns written not resolved')
            for i in range(int(val(k))):
                if isinstance(x, Ptr):
                    y = ip.read(x.lv.ext(('i', add(x.off or ZERO, num(i)))))
                elif isinstance(x, Arr):
                    y = ip.getc(x, ('i', num(i)))
                else:
                    y = x
                ip.write(lv.ext(('i', ip.term(ip.getc(d, ('i', num(i)))))), y)
        for c in ('mfem::Vector', 'mfem::GridFunction'):
            m[c + '::SetSubVector'] = subvec

        # the store of distinct matrices: concrete matrices under the program's order
        def stored(t):
            t = t.replace('const ', '').strip()
            return t.startswith('std::set<') and 'Eigen::' in t

        m['default'] = lambda ip, t: Arr('seq', None, ZERO, {}, None) if stored(t) else None

        def less(ip, e, a, b):
            cls = template_args(e['OT'].replace('const ', ''))[1]
            op = [f for f in ip.p.fn.values() if f.get('cls') == cls and f['name'] == 'operator()' and f.get('body') is not None]
            if len(op) != 1:
                raise AnalysisError('order of the stored matrices not found')
            r = ip.call_function(op[0], [cell(ip, a), cell(ip, b)], cell(ip, Obj(cls, None, {})))
            if r not in (TRUE, FALSE):
                raise AnalysisError('order of two stored matrices not resolved: %s' % str(r)[:300] + str(b)[:300])
            return r is TRUE

        def search(ip, e, lv, v):
            s = ip.read(lv)
            for i in range(int(val(ip.size_of(s)))):
                o = ip.getc(s, ('i', num(i)))
                if not less(ip, e, o, v) and not less(ip, e, v, o):
                    return i

        def find(ip, e, lv, w):
            if not stored(e.get('OT', '')):
                return NotImplemented
            i = search(ip, e, lv, ip.eval(e['args'][0]))
            return It(lv, END_I if i is None else num(i))

        def insert(ip, e, lv, w):
            if not stored(e.get('OT', '')):
                return NotImplemented
            v = ip.eval(e['args'][-1])
            i = search(ip, e, lv, v)
            if i is None:
                k = ip.size_of(ip.read(lv))
                s = ip.read(lv)
                ip.write(lv, Arr('seq', None, add(k, ONE), {**s.e, k: v}, None))
                return Obj('std::pair', None, {'first': It(lv, k), 'second': TRUE})
            return Obj('std::pair', None, {'first': It(lv, num(i)), 'second': FALSE})

        def count(ip, e, lv, w):
            if not stored(e.get('OT', '')):
                return NotImplemented
            return ZERO if search(ip, e, lv, ip.eval(e['args'][0])) is None else ONE
        m['std::set::find'], m['std::set::count'] = find, count
        m['std::set::insert'] = m['std::set::emplace'] = insert

        def incident(ip, e, lv, w):
            o = ip.read(lv)
            x = ip.eval(e['args'][0])
            a = [ip.term(ip.eval(y)) for y in e['args'][1:]]
            return self.inc(o.f['#name'], [ip.term(ip.getc(x, ('i', num(d)))) for d in range(3)], *a)
        for c in ('Source', 'TotalField', 'InitialField'):
            m['maxwell::%s::eval' % c] = incident
        return m

    @staticmethod
    def inc(src, x, t, F, d):
        return mk('app', ('field', src) + tuple(x) + (t, F, d), 'n')

    # Concrete matrices, so that the store of distinct ones is decided: elements 0
    # and 3 share theirs, element 2 differs from them in the last entry only.
    @staticmethod
    def umass(i, j):
        """inverse mass matrix of an element of unit measure"""
        return num(Fraction(7 * i * i + 3 * j + 5 * i * j + 2, 3 + i + 2 * j))

    def imass(self, e, i, j):
        return div(self.umass(i, j), self.measure) if self.measure is not None else DG.imass(self, e, i, j)

    def assemble(self, ip, form):
        mesh = ip.read(ip.deref(ip.read(ip.deref(form.f['#fes'])).f['#mesh']))
        if '#measure' not in mesh.f:
            return GeoDG.assemble(self, ip, form)
        ne, faces = self.ne, self.dgfaces
        self.ne, self.measure, self.dgfaces = len(self.els(ip, mesh)), mesh.f['#measure'], []
        try:
            return GeoDG.assemble(self, ip, form)
        finally:
            self.ne, self.measure, self.dgfaces = ne, None, faces

    def deriv(self, d, e, i, j):
        last = self.size()[2] - 1
        s = 1 if (e, i, j) == (2, last, last) else 0
        return num(Fraction(11 * d + 5 * i * i + 17 * j + 3 * i * j - 8, 7) + s) if d < self.dim else ZERO

    def volume(self, e):
        return num(Fraction(5, 2) if e != 1 else Fraction(3))

    def global_rows(self):
        n = 6 * self.ne * self.size()[2]
        return {i: {j: sym('G%d_%d' % (i, j)) for j in sorted({i, (7 * i + 3) % n, (i + 5) % n})} for i in range(n)}

    def connect(self, ip):
        g, b = self.conn

        def lists(x):
            return vec([vec([num(k) for k in y]) for y in x])
        bd = {k: Obj('maxwell::' + ('TrueBoundaryMaps' if 'mapB' in v else 'InteriorBoundaryMaps' if 'mapBElem1' in v else 'TotalFieldScatteredFieldMaps'), None, {n: lists(x) for n, x in v.items()}) for k, v in b.items()}
        return Obj(CONN, None, {'global': vec([Obj('std::pair', None, {'first': num(i), 'second': num(j)}) for i, j in g]), 'boundary': Obj('maxwell::BoundaryMaps', None, bd)})


def connectivity(dg):
    """flux points of every element; own node, node behind, conditions on some"""
    dim, nf, nd, nfn = dg.size()
    q = nf * nfn
    N = dg.ne * nd
    own = [k * nd + i % nd for k in range(dg.ne) for i in range(q)]
    g = [(o, (o * 5 + nd + 1 + v) % N) for v, o in enumerate(own)]

    def at(*ps):
        return [k * q + i for k, i in ps]

    def true(*fs):
        return {'mapB': [at(*f) for f in fs], 'vmapB': [[own[v] for v in at(*f)] for f in fs]}

    def inner(*fs):
        a = [at(*[x for x, _ in f]) for f in fs]
        b = [at(*[y for _, y in f]) for f in fs]
        return {'mapBElem1': a, 'mapBElem2': b, 'vmapBElem1': [[own[v] for v in f] for f in a], 'vmapBElem2': [[own[v] for v in f] for f in b]}
    b = {'PEC': true([(0, 0)], [(0, 1), (1, 1)]), 'PMC': true([(0, 2), (0, 3)]), 'SMA': true([(2, 0), (1, 0)], [(2, 1)]),
         'intPEC': inner([((0, 4), (2, 2))]), 'intPMC': inner([((2, 3), (0, 5))]), 'intSMA': inner([((1, 2), (2, 4))], [((3, 0), (1, 3))])}
    a = [at((4, 0), (4, 1)), at((4, 2))]
    c = [at((3, 2), (3, 1)), at((3, 3))]
    b['TFSF'] = {'mapBSF': a, 'mapBTF': c, 'vmapBSF': [[own[v] for v in f] for f in a], 'vmapBTF': [[own[v] for v in f] for f in c]}
    return g, b


R27 = {
    'straight elements': 'the rates of a straight element are the curl by its derivative matrices plus the lifted upwind flux of its jumps',
    'curved elements': 'the rates at the nodes of a curved element are those of the global operator',
    'refusal': 'an incident-field surface on a curved element is refused',
}


def build(ctx, p, shape, displaced, tf=(4, 3)):
    dim, nf, nd, nfn = SHAPE[shape]
    K = type('K', (HestModel,), {'shape_': shape, 'displaced': displaced})
    faces = [Face('a', (0, None), 1), Face('t', tf, 2), Face('i', (0, 1))]
    dg = K(dim, faces, [(0,) * dim] * 5, [(0, 1, 2)] * 5, [(0, 1), (1, 2)], nd=nd, nq=1)
    dg.order = 1
    dg.conn = connectivity(dg)
    b = dg.conn[1]['TFSF']
    dg.twin = {divmod(i, nd): divmod(j, nd) for x, y in zip(b['vmapBSF'], b['vmapBTF']) for i, j in zip(x, y)}
    ip = ctx.interp(p, models=dg.models(), opaque={CONN})
    ip.views = True
    alpha = sym('+alpha')
    model, fes, src, opts, mats = make(p, ip, dg, {'a': 'PEC', 't': 'TotalFieldIn'}, alpha)
    ip.write(ip.call_function(method(p, 'maxwell::Model', 'getTotalFieldScatteredFieldToMarker', 0), [], model, retlv=True), Arr('map', None, ONE, {bdr_enum(p)['TotalFieldIn']: vec([ZERO, ONE])}, None))
    srcs = [Ptr(cell(ip, Obj('maxwell::' + c, None, {'#name': sym(n, None)}))) for c, n in (('InitialField', 'ini'), ('TotalField', 'wave0'), ('TotalField', 'wave1'))]
    o = ip.read(src.ext(('f', 'sources')))
    k = [x for x, v in o.f.items()]
    if len(k) != 1:
        raise AnalysisError('layout of the sources not understood')
    ip.write(src.ext(('f', 'sources')).ext(('f', k[0])), vec(srcs))
    return dg, ip, alpha, (fes, model, src, opts)


def oracle(dg, alpha, x, fl):
    """expected rates; x(F, d, i)"""
    dim, nf, nd, nfn = dg.size()
    q, N = nf * nfn, dg.ne * nd
    g, b = dg.conn
    jump = {}
    for v, (o, s) in enumerate(g):
        for F in (0, 1):
            for d in range(3):
                jump[F, d, v] = sub(x(F, d, s), x(F, d, o))
    ia = div(num(-1), alpha)
    for name, c in (('PEC', (num(-2), ZERO)), ('PMC', (ZERO, num(-2))), ('SMA', (ia, ia))):
        for vs in b[name]['mapB']:
            for v in vs:
                for F in (0, 1):
                    for d in range(3):
                        jump[F, d, v] = mul(c[F], x(F, d, g[v][0]))
    h = num(Fraction(-1, 2))
    for name, c in (('intPEC', (num(-1), ZERO)), ('intPMC', (ZERO, num(-1))), ('intSMA', (h, h))):
        for k in ('mapBElem1', 'mapBElem2'):
            for vs in b[name][k]:
                for v in vs:
                    for F in (0, 1):
                        for d in range(3):
                            jump[F, d, v] = mul(c[F], x(F, d, g[v][0]))
    for sf, tf, vs in zip(b['TFSF']['mapBSF'], b['TFSF']['mapBTF'], b['TFSF']['vmapBSF']):
        for i, j, v in zip(sf, tf, vs):
            pos = [dg.at(v // nd, v % nd, c, False) for c in range(3)]
            for s in ('wave0', 'wave1'):
                for F in (0, 1):
                    for d in range(3):
                        f = dg.inc(sym(s, None), pos, sym('t'), fl[F], num(d))
                        jump[F, d, i] = sub(jump[F, d, i], f)
                        jump[F, d, j] = add(jump[F, d, j], f)
    out = {}
    rows = dg.global_rows()
    lift = [[None] * q for _ in range(nd)]
    for i in range(nd):
        for j in range(q):
            t = ZERO
            for k in range(nd):
                t = add(t, mul(dg.umass(i, k), sym('EM_%d_%d' % (k, j))))
            lift[i][j] = t
    for e in range(dg.ne):
        if e in dg.displaced and abs(dg.displaced[e][2]) > dg.threshold:
            for i in range(nd):
                for c in range(6):
                    t = ZERO
                    for j, a in rows[c * N + e * nd + i].items():
                        t = add(t, mul(a, x(j // (3 * N), j // N % 3, j % N)))
                    out[c // 3, c % 3, e * nd + i] = t
            continue
        n = [[div(dg.ortho(e, f, d), dg.fweight(e, f)) for d in range(3)] for f in range(nf)]
        fs = [div(dg.area(e, f), dg.volume(e)) for f in range(nf)]
        D = []
        for d in range(3):
            M = [[ZERO] * nd for _ in range(nd)]
            for i in range(nd):
                for j in range(nd):
                    t = ZERO
                    for k in range(nd):
                        t = add(t, mul(dg.umass(i, k), dg.deriv(d, e, k, j)))
                    M[i][j] = div(t, dg.volume(e))
            D.append(M)
        for F, s in ((0, 1), (1, -1)):
            o = 1 - F
            flux = {}
            for v in range(q):
                f = v // nfn
                J = [[jump[A, d, e * q + v] for d in range(3)] for A in (0, 1)]
                nd_ = ZERO
                for d in range(3):
                    nd_ = add(nd_, mul(n[f][d], J[F][d]))
                for a in range(3):
                    b_, c_ = (a + 1) % 3, (a + 2) % 3
                    t = sub(mul(n[f][b_], J[o][c_]), mul(n[f][c_], J[o][b_]))
                    t = add(mul(num(s), t), mul(alpha, sub(J[F][a], mul(nd_, n[f][a]))))
                    flux[a, v] = mul(mul(t, fs[f]), num(Fraction(1, 2)))
            for a in range(3):
                b_, c_ = (a + 1) % 3, (a + 2) % 3
                for i in range(nd):
                    t = ZERO
                    for j in range(nd):
                        t = add(t, sub(mul(D[b_][i][j], x(o, c_, e * nd + j)), mul(D[c_][i][j], x(o, b_, e * nd + j))))
                    t = mul(num(s), t)
                    for v in range(q):
                        t = add(t, mul(lift[i][v], flux[a, v]))
                    out[F, a, e * nd + i] = t
    return out


def elementwise(ctx):
    p = ctx.prog(OPUNITS)
    for r, t in R27.items():
        ctx.rule(r, t)
    f = method(p, HEST, 'Mult', 2)
    FT = enum(p, 'maxwell::FieldType')
    fl = [FT['E'], FT['H']]
    eps = Fraction(1, 1000000)

    def rates(shape, displaced):
        dg, ip, alpha, args = build(ctx, p, shape, displaced)
        op = construct(ip, HEST, list(args))
        xs, u = unknowns(dg)
        N = dg.ne * dg.nd
        y = cell(ip, vec([sym('old%d' % i) for i in range(6 * N)]))
        ip.call_function(f, [cell(ip, vec(xs)), y], op)
        if ip.st.dead:
            raise AnalysisError('operator of %s refused' % shape)
        got = ip.read(y)
        want = oracle(dg, alpha, u, fl)
        for (F, d, i), t in sorted(want.items()):
            e = i // dg.nd
            cur = e in displaced and abs(displaced[e][2]) > dg.threshold
            ctx.equal('curved elements' if cur else 'straight elements', ip.term(ip.getc(got, ('i', num((3 * F + d) * N + i)))), t, where(f), what='rate of %s%s at node %d of element %d, %s' % ('EH'[F], 'xyz'[d], i % dg.nd, e, shape.lower()))
        ctx.sites += 1

    def refused(displaced, tf):
        dg, ip, alpha, args = build(ctx, p, 'TRIANGLE', displaced, tf)
        construct(ip, HEST, list(args))
        ctx.hold('refusal', ip.st.dead, where(f), 'an incident-field surface between elements %d and %d is accepted with element %d curved' % (tf + tuple(displaced)))
    tasks = [lambda shape=shape: rates(shape, {1: (shape == 'TRIANGLE' and 2 or 1, 1, Fraction(1, 50000)), 3: (0, 0, eps)}) for shape in SHAPE]
    tasks.append(lambda: rates('TRIANGLE', {1: (0, 0, -Fraction(1, 10))}))
    c = {1: (0, 0, Fraction(1, 10))}
    tasks += [lambda: refused(c, (1, 3)), lambda: refused(c, (3, 1))]
    ctx.parallel(tasks)


CHECKS = {'P27': elementwise}
