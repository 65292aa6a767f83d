"""Semi-discrete Maxwell operators assembled on a small modelled mesh."""
import itertools
from fw import *
from terms import *
from checks.common import *
from checks.model import bdr_enum, const_map, material, BC
import prog

PFES = 'mfem::ParFiniteElementSpace'
FORMS = ('mfem::ParBilinearForm', 'mfem::BilinearForm')
HALF = num(Fraction(1, 2))


class Face:
    """one face: elements on its two sides (None: nothing there), boundary
    attribute (None: not a boundary face), one quadrature point"""

    def __init__(self, name, el, attr=None, shared=False, x=1):
        self.name, self.el, self.attr, self.shared, self.x = name, el, attr, shared, x


class DG(MeshModel):
    """mesh of ne elements with one degree of freedom each"""

    def __init__(self, dim, faces, ne=2, nbr=0, tags=None, order=0, nq=1, nd=1, rank=0, procs=None):
        bf = [f for f in faces if f.attr is not None]
        MeshModel.__init__(self, dim, [f.attr for f in bf], faces=[(i, f.el[1] is not None, f.el) for i, f in enumerate(bf)], attributes=sorted(set(tags or [1])), ne=ne, procs=procs or 1 + nbr)
        self.dgfaces, self.bfaces, self.nbr = faces, bf, nbr
        self.tags = tags or [1] * ne
        self.order, self.nq, self.nd = order, nq, nd
        self.cache = {}
        self.nbrcells = {}
        self.orders = []
        self.meshorder = None
        self.thresholds = []
        self.inverses = []
        self.gmres = []
        self.unknown = []

    # ------------------------------------------------------------- geometry
    def wq(self, f, q=0):
        return sym('w%d' % q)

    def W(self, f, q=0):
        return ONE if self.dim == 1 else sym('W_%s_%d' % (f.name, q))

    def normal(self, f, d, q=0):
        """face normal of the first element, scaled by the face measure"""
        if d >= self.dim:
            return ZERO
        return num(2 * f.x - 1) if self.dim == 1 else sym('n_%s_%d_%d' % (f.name, d, q))

    def shape(self, f, side, i=0, q=0):
        return sym('s_%s_%d_%d_%d' % (f.name, side, i, q))

    def mass(self, e, i=0, j=0):
        return sym('M%d_%d%d' % (e, i, j))

    def imass(self, e, i=0, j=0):
        """entry of the inverse mass matrix"""
        return sym('Mi%d_%d%d' % (e, i, j))

    def deriv(self, d, e, i=0, j=0):
        return sym('D%d_%d_%d%d' % (d, e, i, j))

    # -------------------------------------------------------------- objects
    def fes(self, ip, mesh):
        self.mesh = mesh
        return cell(ip, Obj(PFES, sym('fes', None), {'num_face_nbr_dofs': ZERO, '#n': num(self.ne * self.nd), '#mesh': Ptr(mesh)}))

    def matrix(self, h, w, rows=None):
        """rows: {i: {j: term}}"""
        rows = rows or {}
        cols = {}
        vals = {}
        for i in range(h):
            r = sorted(rows.get(i, {}).items())
            cols[num(i)] = Arr('seq', None, num(len(r)), {num(k): num(j) for k, (j, _) in enumerate(r)}, None)
            vals[num(i)] = Arr('seq', None, num(len(r)), {num(k): v for k, (_, v) in enumerate(r)}, None)
        return Obj('mfem::SparseMatrix', None, {'h': num(h), 'w': num(w), 'cols': Arr('seq', None, num(h), cols, None), 'vals': Arr('seq', None, num(h), vals, None)})

    def rows(self, ip, m):
        """{i: {j: term}} of a matrix object"""
        if not isinstance(m, Obj) or 'cols' not in m.f or m.f['h'].op != 'num':
            raise AnalysisError('matrix content not understood: %r' % (m,))
        out = {}
        for i in range(int(val(m.f['h']))):
            c, v = m.f['cols'].e[num(i)], m.f['vals'].e[num(i)]
            if not isinstance(c, Arr) or c.size.op != 'num':
                raise AnalysisError('matrix row not understood')
            r = {}
            for k in range(int(val(c.size))):
                j = c.e[num(k)]
                if j.op != 'num':
                    raise AnalysisError('matrix column not understood')
                j = int(val(j))
                x = ip.term(v.e.get(num(k), v.fill))
                r[j] = add(r[j], x) if j in r else x
            out[i] = r
        return out

    # ------------------------------------------------------------- assembly
    def face_matrix(self, ip, integ, f):
        """element matrix of a face integrator of the analysed sources"""
        lv = ip.deref(integ)
        o = ip.read(lv)
        if not isinstance(o, Obj):
            raise AnalysisError('face integrator not understood: %r' % (o,))
        key = (o.cls, ip.term(o), f.name)
        if key in self.cache:
            return self.cache[key]
        fn = virt(ip.p, o.cls, 'AssembleFaceMatrix', 4)
        nd = [self.nd, self.nd if f.el[1] is not None or f.shared else 0]
        els = [cell(ip, Obj('mfem::FiniteElement', sym('fe_%s_%d' % (f.name, s), None), {'#face': string(f.name), '#side': num(s)})) for s in (0, 1)]
        tr = cell(ip, Obj('mfem::FaceElementTransformations', sym('ft_%s' % f.name, None), {'Elem1No': num(f.el[0]), 'Elem2No': num(self.ne if f.shared else f.el[1] if f.el[1] is not None else -1), '#face': string(f.name),
                                                                                          'Elem1': Ptr(cell(ip, Obj('mfem::ElementTransformation', sym('et1', None), {}))), 'Elem2': Ptr(cell(ip, Obj('mfem::ElementTransformation', sym('et2', None), {})))}))
        em = cell(ip, Arr('seq', None, mk('app', ('dim', ZERO, ZERO), 'n'), {}, UNDEF))
        ip.call_function(fn, [els[0], els[1], tr, em], lv)
        r = ip.read(em)
        n = sum(nd)
        if isinstance(r, Arr) and r.size is not mk('app', ('dim', num(n), num(n)), 'n'):
            raise AnalysisError('element matrix of %s has an unexpected size' % o.cls)
        out = [[ip.term(ip.getc(r, ('i', mk('app', ('ij', num(i), num(j)), 'n')))) for j in range(n)] for i in range(n)]
        self.cache[key] = out
        return out

    def coef(self, ip, c, e):
        """value of a coefficient on element e"""
        o = ip.read(ip.deref(c)) if isinstance(c, Ptr) else c
        if isinstance(o, Obj) and o.cls == 'mfem::PWConstCoefficient':
            return ip.term(ip.getc(o.f['a0'], ('i', num(self.tags[e] - 1))))
        if isinstance(o, Obj) and o.cls == 'mfem::ConstantCoefficient':
            return ip.term(o.f['a0']) if 'a0' in o.f else ONE
        raise AnalysisError('coefficient not understood: %r' % (o,))

    def domain(self, ip, g, e):
        """element matrix of a volume integrator: (coefficient, entry function)"""
        o = ip.read(ip.deref(g))
        if isinstance(o, Obj) and o.cls == 'mfem::InverseIntegrator':
            c, m = self.domain(ip, o.f['a0'], e)
            if m != self.mass:
                raise AnalysisError('inverse of an integrator not understood')
            return div(ONE, c), self.imass
        if isinstance(o, Obj) and o.cls == 'mfem::MassIntegrator':
            return self.coef(ip, o.f['a0'], e) if 'a0' in o.f else ONE, self.mass
        if isinstance(o, Obj) and o.cls == 'mfem::DerivativeIntegrator':
            d = ip.term(o.f['a1'])
            if d.op == 'enumc':
                d = num(d.args[1])
            if d.op != 'num':
                raise AnalysisError('direction of a derivative not resolved')
            self.orders.append(o.f.get('#rule'))
            return self.coef(ip, o.f['a0'], e), lambda e, i, j: self.deriv(int(val(d)), e, i, j)
        raise AnalysisError('volume integrator not understood: %r' % (o,))

    def marked(self, ip, m, f):
        if m is None or m is NULL:
            return True
        a = ip.read(ip.deref(m)) if isinstance(m, Ptr) else m
        if not isinstance(a, Arr):
            raise AnalysisError('boundary marker not understood: %r' % (a,))
        if a.size.op == 'num' and f.attr > int(val(a.size)):
            raise AnalysisError('boundary marker has no entry for attribute %d' % f.attr)
        x = ip.term(ip.getc(a, ('i', num(f.attr - 1))))
        if x.op != 'num':
            raise AnalysisError('boundary marker entry not resolved: %s' % show(x)[:200])
        return int(val(x)) != 0

    def assemble(self, ip, form):
        nd, n = self.nd, self.ne * self.nd
        rows = {i: {} for i in range(n)}

        def put(i, j, x):
            if x is not ZERO:
                rows[i][j] = add(rows[i][j], x) if j in rows[i] else x
        par = form.cls == 'mfem::ParBilinearForm'
        width = n
        for k in range(int(val(form.f['#recs'].size))):
            r = form.f['#recs'].e[num(k)]
            kind, g, m = r.f['kind'].args[0], r.f['integ'], r.f['marker']
            if kind == 'domain':
                for e in range(self.ne):
                    c, ent = self.domain(ip, g, e)
                    for i in range(nd):
                        for j in range(nd):
                            put(e * nd + i, e * nd + j, mul(c, ent(e, i, j)))
                continue
            if kind == 'interior' and par:
                width = n + self.nbr_of(ip, form)
            for f in self.dgfaces:
                if kind == 'interior':
                    if f.el[1] is None and not f.shared:
                        continue
                    if f.shared and not (par and width > n):
                        continue
                    # the marker of interior faces names those to leave out
                    if f.attr is not None and m is not NULL and self.marked(ip, m, f):
                        continue
                elif kind == 'boundary':
                    if f.attr is None or f.el[1] is not None or not self.marked(ip, m, f):
                        continue
                elif kind == 'internal':
                    if f.attr is None or f.el[1] is None or not self.marked(ip, m, f):
                        continue
                em = self.face_matrix(ip, g, f)
                a, b = f.el
                if f.shared:
                    b += self.ne
                sides = [a] if b is None else [a, b]
                for si, ea in enumerate(sides):
                    if si and f.shared:
                        continue
                    for sj, eb in enumerate(sides):
                        for i in range(nd):
                            for j in range(nd):
                                put(ea * nd + i, eb * nd + j, em[si * nd + i][sj * nd + j])
        return self.matrix(n, width, rows)

    def nbr_of(self, ip, form):
        o = ip.read(ip.deref(form.f['#fes']))
        n = ip.term(o.f['num_face_nbr_dofs'])
        if n.op != 'num':
            raise AnalysisError('number of neighbouring unknowns not resolved')
        return int(val(n))

    # ------------------------------------------------------------- models
    def models(self):
        m = MeshModel.models(self)
        base = m['construct']

        def const(t):
            return lambda ip, e, *r: t

        def args(ip, e):
            return [ip.lval_or_val(a) for a in e['args']]

        def keep(ip, e):
            out = {}
            for i, a in enumerate(e['args']):
                v = ip.lval_or_val(a)
                if isinstance(v, LV):
                    x = ip.read(v)
                    v = Ptr(v) if isinstance(x, Obj) else x
                out['a%d' % i] = v
            return out

        def cons(ip, e, T):
            T = T.replace('const ', '')
            if T in FORMS:
                v = ip.eval(e['args'][0])
                return Obj(T, None, {'#recs': Arr('seq', None, ZERO, {}, None), '#fes': v, 'spmat': self.matrix(self.ne * self.nd, self.ne * self.nd)})
            if T in (PFES, 'mfem::FiniteElementSpace') and len(e['args']) == 1:
                v = ip.eval(e['args'][0])
                if isinstance(v, Obj):
                    return v
            if T in ('mfem::InverseIntegrator', 'mfem::MassIntegrator', 'mfem::DerivativeIntegrator', 'mfem::PWConstCoefficient', 'mfem::ConstantCoefficient'):
                if len(e['args']) == 1:
                    v = ip.eval(e['args'][0])
                    if isinstance(v, Obj) and v.cls == T:
                        return v
                if T.endswith('Coefficient'):
                    return Obj(T, None, {'a%d' % i: ip.eval(a) for i, a in enumerate(e['args'])})
                return Obj(T, None, keep(ip, e))
            if T == 'mfem::SparseMatrix':
                a = [ip.eval(x) for x in e['args']]
                if len(a) >= 1 and isinstance(a[0], Obj) and 'cols' in a[0].f:
                    return a[0]
                if len(a) >= 5 and isinstance(a[0], Ptr):
                    return self.csr(ip, a)
                if not a:
                    return self.matrix(0, 0)
                t = [ip.term(x) for x in a]
                if all(x.op == 'num' for x in t):
                    return self.matrix(int(val(t[0])), int(val(t[1])) if len(t) > 1 else int(val(t[0])))
            if T.startswith('mfem::Memory<'):
                n = ip.term(ip.eval(e['args'][0]))
                return Ptr(LV(ip.new_cell(Arr('seq', None, n, {}, UNDEF))), ZERO)
            if T == 'mfem::DenseMatrixInverse':
                return Obj(T, None, {'#of': ip.eval(e['args'][0])})
            if T == 'mfem::DenseMatrix' and len(e['args']) == 1 and e['args'][0].get('t') != 'i':
                return ip.eval(e['args'][0])
            return base(ip, e, T)
        m['construct'] = cons

        # ------------------------------------------------------------ spaces
        for c in (PFES, 'mfem::FiniteElementSpace'):
            m[c + '::GetNDofs'] = m[c + '::GetVSize'] = m[c + '::GetTrueVSize'] = m[c + '::TrueVSize'] = const(num(self.ne * self.nd))
            m[c + '::GetMesh'] = m[c + '::GetParMesh'] = lambda ip, e, lv, w: ip.getc(ip.read(lv), ('f', '#mesh'))
            m[c + '::FEColl'] = lambda ip, e, lv, w: Ptr(cell(ip, Obj('mfem::DG_FECollection', sym('fec', None), {})))
            m[c + '::GetElementToDofTable'] = lambda ip, e, lv, w: cell(ip, Obj('mfem::Table', sym('el2dof', None), {}))
            m[c + '::GetFaceNbrVSize'] = lambda ip, e, lv, w: ip.getc(ip.read(lv), ('f', 'num_face_nbr_dofs'))

        def exchange(ip, e, lv, w):
            ip.write(lv.ext(('f', 'num_face_nbr_dofs')), num(self.nbr * self.nd))
        m[PFES + '::ExchangeFaceNbrData'] = exchange
        m['mfem::FiniteElementCollection::GetOrder'] = m['mfem::DG_FECollection::GetOrder'] = const(num(self.order))
        m['mfem::Table::Size'] = const(num(self.ne))
        m['mfem::Table::RowSize'] = const(num(self.nd))

        def row(ip, e, lv, w):
            i = ip.term(ip.eval(e['args'][0]))
            if i.op != 'num':
                return ip.external_call(e, lv, w)
            if len(e['args']) == 1:
                return Ptr(LV(ip.new_cell(vec([num(int(val(i)) * self.nd + k) for k in range(self.nd)]))), ZERO)
            ip.write(ip.lval(e['args'][1]), vec([num(int(val(i)) * self.nd + k) for k in range(self.nd)]))
        m['mfem::Table::GetRow'] = row
        for c in ('mfem::Mesh', 'mfem::ParMesh'):
            m[c + '::GetNodalFESpace'] = lambda ip, e, lv, w: NULL if self.meshorder is None else Ptr(cell(ip, Obj('mfem::FiniteElementSpace', sym('nodal', None), {})))
            m[c + '::GetElementGeometry'] = const(sym('geom', None))
        m['mfem::FiniteElementSpace::GetMaxElementOrder'] = lambda ip, e, lv, w: num(self.meshorder or 1)
        m['MPI_Barrier'] = const(ZERO)
        for c in ('mfem::ParMesh', PFES):
            m[c + '::GetComm'] = const(sym('comm', None))
            m[c + '::GetNRanks'] = const(num(self.procs))
        m['MPI_Comm_size'] = lambda ip, e: ip.write(ip.deref(ip.eval(e['args'][1])), num(self.procs)) and ZERO or ZERO

        def rule(ip, e, lv, w):
            a = [ip.term(ip.eval(x)) for x in e['args']]
            return cell(ip, Obj('mfem::IntegrationRule', sym('ir', None), {'#order': a[1]}))
        m['mfem::IntegrationRules::Get'] = rule

        def setrule(ip, e, lv, w):
            r = ip.eval(e['args'][0])
            ip.write(lv.ext(('f', '#rule')), ip.getc(ip.read(ip.deref(r)), ('f', '#order')))
        for c in ('mfem::DerivativeIntegrator', 'mfem::BilinearFormIntegrator', 'mfem::NonlinearFormIntegrator'):
            m[c + '::SetIntRule'] = setrule

        # ------------------------------------------------------------- forms
        def adder(kind):
            def f(ip, e, lv, w):
                g = ip.eval(e['args'][0])
                mk_ = NULL
                if len(e['args']) > 1:
                    a = ip.lval_or_val(e['args'][1])
                    mk_ = Ptr(a) if isinstance(a, LV) else Ptr(cell(ip, a))
                o = ip.read(lv)
                recs = o.f['#recs']
                n = int(val(recs.size))
                ee = dict(recs.e)
                ee[num(n)] = Obj('rec', None, {'kind': string(kind), 'integ': g, 'marker': mk_})
                ip.write(lv.ext(('f', '#recs')), Arr('seq', None, num(n + 1), ee, None))
            return f

        def assemble(ip, e, lv, w):
            ip.write(lv.ext(('f', 'spmat')), self.assemble(ip, ip.read(lv)))

        def fmult(ip, e, lv, w):
            return self.mult(ip, e, lv.ext(('f', 'spmat')))

        def faddmult(ip, e, lv, w):
            return self.addmult(ip, e, lv.ext(('f', 'spmat')))
        for c in FORMS:
            m[c + '::AddDomainIntegrator'] = adder('domain')
            m[c + '::AddInteriorFaceIntegrator'] = adder('interior')
            m[c + '::AddBdrFaceIntegrator'] = adder('boundary')
            m[c + '::AddInternalBoundaryFaceIntegrator'] = adder('internal')
            m[c + '::Assemble'] = assemble
            m[c + '::Finalize'] = const(None)
            m[c + '::SpMat'] = lambda ip, e, lv, w: lv.ext(('f', 'spmat'))
            m[c + '::Mult'] = fmult
            m[c + '::AddMult'] = faddmult

        # ---------------------------------------------------------- matrices
        S = 'mfem::SparseMatrix::'
        for c in ('mfem::SparseMatrix::', 'mfem::Operator::', 'mfem::Matrix::'):
            m[c + 'Height'] = m[c + 'NumRows'] = lambda ip, e, lv, w: self.dimension(ip, e, lv, w, 'h')
            m[c + 'Width'] = m[c + 'NumCols'] = lambda ip, e, lv, w: self.dimension(ip, e, lv, w, 'w')
            m[c + 'Mult'] = lambda ip, e, lv, w: self.mult(ip, e, lv)
            m[c + 'AddMult'] = lambda ip, e, lv, w: self.addmult(ip, e, lv)
            m[c + 'Finalize'] = const(None)
        m[S + 'Size'] = m[S + 'Height']

        def rowix(g):
            def f(ip, e, lv, w):
                i = ip.term(ip.eval(e['args'][0]))
                o = ip.read(lv)
                if i.op != 'num' or not isinstance(o, Obj):
                    raise AnalysisError('matrix row not resolved')
                if not 0 <= int(val(i)) < int(val(o.f['h'])):
                    raise AnalysisError('matrix row %d out of range' % int(val(i)))
                return g(ip, e, lv, o, i)
            return f
        m[S + 'RowSize'] = rowix(lambda ip, e, lv, o, i: o.f['cols'].e[i].size)
        m[S + 'GetRowColumns'] = rowix(lambda ip, e, lv, o, i: Ptr(lv.ext(('f', 'cols')).ext(('i', i)), ZERO))
        m[S + 'GetRowEntries'] = rowix(lambda ip, e, lv, o, i: Ptr(lv.ext(('f', 'vals')).ext(('i', i)), ZERO))

        def getrow(ip, e, lv, o, i):
            ip.write(ip.lval(e['args'][1]), o.f['cols'].e[i])
            ip.write(ip.lval(e['args'][2]), o.f['vals'].e[i])
            return ZERO
        m[S + 'GetRow'] = rowix(getrow)

        def adde(acc):
            def f(ip, e, lv, w):
                i, j, x = [ip.term(ip.eval(a)) for a in e['args'][:3]]
                o = ip.read(lv)
                rows = self.rows(ip, o)
                if i.op != 'num' or j.op != 'num':
                    raise AnalysisError('matrix position not resolved')
                i, j = int(val(i)), int(val(j))
                if i not in rows or not 0 <= j < int(val(o.f['w'])):
                    raise AnalysisError('matrix position %d,%d out of range' % (i, j))
                rows[i][j] = add(rows[i][j], x) if acc and j in rows[i] else x
                ip.write(lv, self.matrix(int(val(o.f['h'])), int(val(o.f['w'])), rows))
            return f
        m[S + 'Add'] = adde(True)
        m[S + 'Set'] = adde(False)

        def thr(ip, e, lv, w):
            t = ip.term(ip.eval(e['args'][0]))
            self.thresholds.append(t)
            if t.op == 'num' and abs(val(t)) <= 1e-14:
                return None
            o = ip.read(lv)
            rows = {i: {j: ite(b_lt(t, f_abs(x)), x, ZERO) for j, x in r.items()} for i, r in self.rows(ip, o).items()}
            ip.write(lv, self.matrix(int(val(o.f['h'])), int(val(o.f['w'])), rows))
        m[S + 'Threshold'] = thr

        def swap(ip, e, lv, w):
            b = ip.lval(e['args'][0])
            x, y = ip.read(lv), ip.read(b)
            ip.write(lv, y)
            ip.write(b, x)
        m[S + 'Swap'] = swap

        def dense(ip, e, lv, w):
            o = ip.read(lv)
            rows = self.rows(ip, o)
            a = Arr('seq', None, mk('app', ('dim', o.f['h'], o.f['w']), 'n'), {mk('app', ('ij', num(i), num(j)), 'n'): x for i, r in rows.items() for j, x in r.items()}, ZERO)
            if not e['args']:
                return Ptr(cell(ip, a))
            ip.write(ip.lval(e['args'][0]), a)
        m[S + 'ToDenseMatrix'] = dense
        m[S + 'PrintCSR2'] = const(None)

        def flat(which):
            def f(ip, e, lv, w):
                rows = self.rows(ip, ip.read(lv))
                out, I = [], [ZERO]
                for i in sorted(rows):
                    for j, x in sorted(rows[i].items()):
                        out.append(num(j) if which == 'J' else x)
                    I.append(num(len(out)))
                return Ptr(cell(ip, vec(I if which == 'I' else out)), ZERO)
            return f
        for nme, wh in (('GetI', 'I'), ('GetJ', 'J'), ('GetData', 'A'), ('HostReadI', 'I'), ('HostReadJ', 'J'), ('HostReadData', 'A')):
            m[S + nme] = flat(wh)

        def product(ip, e, w=None):
            a, b = [ip.read(v) if isinstance(v, LV) else v for v in args(ip, e)[:2]]
            A, B = self.rows(ip, a), self.rows(ip, b)
            out = {}
            if val(a.f['w']) != val(b.f['h']):
                raise AnalysisError('sizes of a matrix product do not agree')
            for i, r in A.items():
                out[i] = {}
                for k, x in r.items():
                    for j, y in B[k].items():
                        t = mul(x, y)
                        out[i][j] = add(out[i][j], t) if j in out[i] else t
            return Ptr(cell(ip, self.matrix(len(A), int(val(b.f['w'])), out)))
        m['mfem::Mult'] = product

        for t in ('int *', 'double *', 'const int *', 'const double *'):
            m['mfem::Memory::operator ' + t] = lambda ip, e, lv, w: ip.read(lv)

        # ------------------------------------------------ dense factorisation
        def setop(ip, e, lv, w):
            a = ip.lval_or_val(e['args'][0])
            ip.write(lv.ext(('f', '#of')), Ptr(a) if isinstance(a, LV) else a)
        for c in ('mfem::GMRESSolver', 'mfem::IterativeSolver', 'mfem::Solver'):
            m[c + '::SetOperator'] = setop
            for n in ('SetRelTol', 'SetAbsTol', 'SetMaxIter', 'SetKDim', 'SetPrintLevel'):
                m[c + '::' + n] = const(None)

        def solve(ip, e, lv, w):
            o = ip.read(lv)
            a, b = ip.eval(e['args'][0]), ip.lval(e['args'][1])
            n = ip.size_of(a)
            if n.op != 'num':
                raise AnalysisError('size of a linear system not resolved')
            k = len(self.inverses)
            self.inverses.append((ip.abs_pc(), o, a))
            ip.write(b, vec([sym('solution%d_%d' % (k, i)) for i in range(int(val(n)))]))
        for c in ('mfem::DenseMatrixInverse', 'mfem::GMRESSolver', 'mfem::Solver'):
            m[c + '::Mult'] = solve

        # ----------------------------------------------------- grid functions
        def setspace(ip, e, lv, w):
            ip.rebind(lv, Arr('seq', None, num(self.ne * self.nd), {}, ZERO))

        def gexchange(ip, e, lv, w):
            v = ip.read(lv)
            xs = [ip.term(ip.getc(v, ('i', num(i)))) for i in range(self.ne * self.nd)]
            k = lv.alts[0][1:]
            c = self.nbrcells.get(k)
            if c is None:
                c = self.nbrcells[k] = ip.new_cell(UNDEF)
            ip.write(LV(c), vec([self.nbrval(j, xs) for j in range(self.nbr * self.nd)]))

        def gnbr(ip, e, lv, w):
            c = self.nbrcells.get(lv.alts[0][1:])
            return LV(c) if c is not None and c in ip.st.store else cell(ip, vec([]))
        for c in ('mfem::ParGridFunction', 'mfem::GridFunction'):
            m[c + '::SetSpace'] = setspace
            m[c + '::ExchangeFaceNbrData'] = gexchange
            m[c + '::FaceNbrData'] = gnbr

        # ------------------------------------------------- finite elements
        m.update(self.element_models())
        for c in ('mfem::Vector', 'mfem::GridFunction', 'mfem::ParGridFunction'):
            m[c + '::UseDevice'] = const(None)
        return m

    @staticmethod
    def nbrval(j, xs):
        return mk('app', ('nbr%d' % j,) + tuple(xs), 'n')

    def dimension(self, ip, e, lv, w, k):
        o = ip.read(lv)
        if isinstance(o, Obj) and k in o.f:
            return o.f[k]
        z = o.size if isinstance(o, Arr) else None
        if isinstance(z, Term) and z.op == 'app' and z.args[0] == 'dim' and len(z.args) == 3:
            return z.args['hw'.index(k) + 1]
        return ip.external_call(e, lv, w)

    def product(self, ip, m, x):
        rows = self.rows(ip, m)
        n = ip.size_of(x)
        out = []
        for i in sorted(rows):
            t = ZERO
            for j, a in sorted(rows[i].items()):
                if n.op == 'num' and j >= int(val(n)):
                    raise AnalysisError('vector of %d entries applied to column %d' % (int(val(n)), j))
                t = add(t, mul(a, ip.term(ip.getc(x, ('i', num(j))))))
            out.append(t)
        return out

    def mult(self, ip, e, lv):
        o = ip.read(lv)
        if not isinstance(o, Obj) or 'cols' not in o.f:
            return NotImplemented
        x, y = ip.eval(e['args'][0]), ip.lval(e['args'][1])
        ip.write(y, vec(self.product(ip, o, x)))

    def addmult(self, ip, e, lv):
        o = ip.read(lv)
        if not isinstance(o, Obj) or 'cols' not in o.f:
            return NotImplemented
        x, y = ip.eval(e['args'][0]), ip.lval(e['args'][1])
        c = ip.term(ip.eval(e['args'][2])) if len(e['args']) > 2 else ONE
        cur = ip.read(y)
        r = self.product(ip, o, x)
        ip.write(y, vec([add(ip.term(ip.getc(cur, ('i', num(i)))), mul(c, t)) for i, t in enumerate(r)]))

    def csr(self, ip, a):
        I, J, D = [ip.read(x.lv) for x in a[:3]]
        h, w = [int(val(ip.term(x))) for x in a[3:5]]
        cols, vals = {}, {}

        def at(A, o, k):
            t = ip.term(ip.getc(A, ('i', add(o, num(k)))))
            return t
        for i in range(h):
            lo, hi = at(I, a[0].off, i), at(I, a[0].off, i + 1)
            if lo.op != 'num' or hi.op != 'num':
                raise AnalysisError('row pointers of a matrix not resolved')
            lo, hi = int(val(lo)), int(val(hi))
            js = [at(J, a[1].off, k) for k in range(lo, hi)]
            if any(j.op != 'num' for j in js):
                raise AnalysisError('column indices of a matrix not resolved')
            cols[num(i)] = vec(js)
            vals[num(i)] = vec([at(D, a[2].off, k) for k in range(lo, hi)])
        return Obj('mfem::SparseMatrix', None, {'h': num(h), 'w': num(w), 'cols': Arr('seq', None, num(h), cols, None), 'vals': Arr('seq', None, num(h), vals, None)})

    # --------------------------------------------------- element level models
    def face_named(self, ip, o):
        n = o.f.get('#face')
        for f in self.dgfaces:
            if n is string(f.name):
                return f
        return None

    def element_models(self):
        m = {}

        def const(t):
            return lambda ip, e, *r: t
        m['mfem::FiniteElement::GetDof'] = const(num(self.nd))
        m['mfem::FiniteElement::GetDim'] = const(num(self.dim))
        m['mfem::FiniteElement::GetOrder'] = const(sym('p'))
        m['mfem::FiniteElement::Space'] = lambda ip, e, lv, w: mk('app', ('space',), 'e')
        m['mfem::ElementTransformation::OrderW'] = const(sym('orderw'))
        m['mfem::IntegrationRule::GetNPoints'] = m['mfem::IntegrationRule::Size'] = const(num(self.nq))

        def point(ip, e, lv, w):
            q = ip.term(ip.eval(e['args'][0]))
            return cell(ip, Obj('mfem::IntegrationPoint', sym('qp', None), {'#q': q, 'weight': sym('w%d' % int(val(q)))}))
        m['mfem::IntegrationRule::IntPoint'] = point

        def setpts(ip, e, lv, w):
            a = ip.read(ip.deref(ip.eval(e['args'][0])))
            ip.write(lv.ext(('f', '#q')), ip.getc(a, ('f', '#q')))
        FT = 'mfem::FaceElementTransformations::'
        m[FT + 'SetAllIntPoints'] = m[FT + 'SetIntPoint'] = setpts

        def cur(ip, lv):
            o = ip.read(lv)
            f = self.face_named(ip, o)
            q = o.f.get('#q', ZERO)
            if f is None or q.op != 'num':
                raise AnalysisError('quadrature point not resolved')
            return o, f, int(val(q))

        def eip(side):
            def g(ip, e, lv, w):
                o, f, q = cur(ip, lv)
                return cell(ip, Obj('mfem::IntegrationPoint', sym('eip', None), {'#q': num(q), '#s': num(side), 'x': num(f.x if side == 0 else 1 - f.x)}))
            return g
        m[FT + 'GetElement1IntPoint'] = eip(0)
        m[FT + 'GetElement2IntPoint'] = eip(1)

        def weight(ip, e, lv, w):
            o, f, q = cur(ip, lv)
            return self.W(f, q)

        def jac(ip, e, lv, w):
            o, f, q = cur(ip, lv)
            return cell(ip, Obj('mfem::DenseMatrix', sym('jac', None), {'#face': string(f.name), '#q': num(q)}))
        for c in (FT, 'mfem::ElementTransformation::'):
            m[c + 'Weight'] = weight
            m[c + 'Jacobian'] = jac
        m[FT + 'GetGeometryType'] = const(sym('fgeom', None))

        def ortho(ip, e, w=None):
            a = ip.lval_or_val(e['args'][0])
            o = ip.read(a) if isinstance(a, LV) else a
            f = self.face_named(ip, o)
            ip.write(ip.lval(e['args'][1]), vec([self.normal(f, d, int(val(o.f['#q']))) for d in range(self.dim)]))
        m['mfem::CalcOrtho'] = ortho

        def calcshape(ip, e, lv, w):
            o = ip.read(lv)
            a = ip.lval_or_val(e['args'][0])
            pt = ip.read(a) if isinstance(a, LV) else a
            f = self.face_named(ip, o)
            side, q = o.f['#side'], pt.f.get('#q')
            if pt.f.get('#s') is not side:
                raise AnalysisError('shape functions of one element evaluated at a point of the other')
            ip.write(ip.lval(e['args'][1]), vec([self.shape(f, int(val(side)), i, int(val(q))) for i in range(self.nd)]))
        m['mfem::FiniteElement::CalcShape'] = calcshape
        return m


# ------------------------------------------------------------------ the law
#            factor of the own trace in the jump of E and of H
JUMP = {'PEC': (2, 0), 'PMC': (0, 2), 'SMA': (1, 1)}


def law(dg, alpha, eps, mu, sigma, bc, u, skip=(), shift=None):
    """semi-discrete Maxwell equations: du/dt as {(field, direction, unknown)};
    u(field, direction, index) gives an unknown (those of neighbouring processes
    follow the local ones); bc: {face name: condition} (faces absent there are
    plain interior faces); shift(face, side, field, direction, point): added to the
    jump seen from that side"""
    nd = dg.nd
    r = {(F, x, k): ZERO for F in (0, 1) for x in range(3) for k in range(dg.ne * nd)}
    for e in range(dg.ne):
        for F in (0, 1):
            sg = 1 if F == 0 else -1
            for x in range(3):
                y, z = (x + 1) % 3, (x + 2) % 3
                for a, b, s in ((y, z, sg), (z, y, -sg)):
                    if a < dg.dim:
                        for i in range(nd):
                            for j in range(nd):
                                r[F, x, e * nd + i] = add(r[F, x, e * nd + i], mul(num(s), mul(dg.deriv(a, e, i, j), u(1 - F, b, e * nd + j))))
    for f in dg.dgfaces:
        if f.name in skip:
            continue
        k = bc.get(f.name)
        el = [f.el[0], dg.ne + f.el[1] if f.shared else f.el[1]]
        al = ONE if k == 'SMA' else alpha
        for s in (0, 1):
            if el[s] is None or (s == 1 and f.shared):
                continue
            for q in range(dg.nq):
                n = [mul(num(1 if s == 0 else -1), dg.normal(f, d, q)) for d in range(3)]
                W = dg.W(f, q)

                def trace(side, F, d):
                    t = ZERO
                    for j in range(nd):
                        t = add(t, mul(dg.shape(f, side, j, q), u(F, d, el[side] * nd + j)))
                    return t
                J = {}
                for F in (0, 1):
                    for d in range(3):
                        own = trace(s, F, d)
                        J[F, d] = mul(num(JUMP[k][F]), own) if k is not None else sub(own, trace(1 - s, F, d))
                        if shift is not None:
                            J[F, d] = add(J[F, d], shift(f, s, F, d, q))
                for F in (0, 1):
                    sg = 1 if F == 0 else -1
                    ndot = ZERO
                    for d in range(3):
                        ndot = add(ndot, mul(n[d], J[F, d]))
                    for x in range(3):
                        y, z = (x + 1) % 3, (x + 2) % 3
                        t = mul(num(Fraction(-sg, 2)), sub(mul(n[y], J[1 - F, z]), mul(n[z], J[1 - F, y])))
                        t = add(t, mul(mul(HALF, al), sub(div(mul(n[x], ndot), W), mul(W, J[F, x]))))
                        t = mul(dg.wq(f, q), t)
                        for i in range(nd):
                            r[F, x, el[s] * nd + i] = add(r[F, x, el[s] * nd + i], mul(dg.shape(f, s, i, q), t))
    out = {}
    for F, x, k in r:
        e, i = divmod(k, nd)
        t = ZERO
        for j in range(nd):
            v = r[F, x, e * nd + j]
            if F == 0 and sigma is not None:
                for l in range(nd):
                    v = sub(v, mul(sigma[e], mul(dg.mass(e, j, l), u(0, x, e * nd + l))))
            t = add(t, mul(dg.imass(e, i, j), v))
        out[F, x, k] = div(t, (eps if F == 0 else mu)[e])
    return out


def rich(dim, nbr, interior=True):
    fs = [Face('i', (0, 1)), Face('j', (1, 0), x=0), Face('pec', (0, None), 1), Face('pmc', (1, None), 2, x=0), Face('sma', (0, None), 3)]
    bc = {'pec': 'PEC', 'pmc': 'PMC', 'sma': 'SMA'}
    if interior:
        fs += [Face('ipec', (0, 1), 4), Face('ipmc', (1, 0), 5), Face('isma', (0, 1), 6)]
        bc.update({'ipec': 'PEC', 'ipmc': 'PMC', 'isma': 'SMA'})
    for j in range(nbr):
        fs.append(Face('sh%d' % j, (1 - j % 2, j), None, True))
    return fs, bc


def make(p, ip, dg, bc, alpha, sources=None, sub_=None):
    """model, space, sources and options around the modelled mesh"""
    E = bdr_enum(p)
    mats, syms = {}, []
    for t in sorted(set(dg.tags)):
        mats[t], s = material(ip, t)
        syms.append(s)
    ext = {f.attr: E[bc[f.name]] for f in dg.bfaces if f.el[1] is None}
    inn = {f.attr: E[bc[f.name]] for f in dg.bfaces if f.el[1] is not None}
    mi = Obj('maxwell::GeomTagToMaterialInfo', None, {'gt2m': const_map(mats), 'gt2bm': const_map({})})
    bi = Obj('maxwell::GeomTagToBoundaryInfo', None, {'gt2b': const_map(ext), 'gt2ib': const_map(inn)})
    mesh = cell(ip, dg.obj('mfem::ParMesh'))
    model = construct(ip, 'maxwell::Model', [mesh, mi, bi, NULL, sym('comm', None)])
    fes = dg.fes(ip, mesh)
    src = cell(ip, Obj('maxwell::SourcesManager', sym('sm', None), {'sources': ip.default_value('maxwell::Sources', None)}))
    opts = cell(ip, ip.default_value('maxwell::EvolutionOptions', None))
    ip.write(opts.ext(('f', 'alpha')), alpha)
    return model, fes, src, opts, mats


OPUNITS = [u for u in prog.all_sources() if not u.startswith(('src/driver', 'src/launcher'))]


def unknowns(dg, tag=''):
    n = dg.ne * dg.nd
    x = [sym('u%s%d_%d_%d' % (tag, F, d, k)) for F in (0, 1) for d in range(3) for k in range(n)]

    def u(F, d, i):
        b = (3 * F + d) * n
        return x[b + i] if i < n else dg.nbrval(i - n, x[b:b + n])
    return x, u


def operator(ctx, p, cls, cfg, procs=None):
    """builds an evolution operator of the given class on a modelled mesh"""
    dim, nbr, faces, bc, nd, tags = cfg
    dg = DG(dim, faces, len(tags), nbr, tags=tags, nd=nd, nq=nd, procs=procs)
    ip = ctx.interp(p, models=dg.models())
    ip.views = True
    alpha = sym('alpha')
    model, fes, src, opts, mats = make(p, ip, dg, bc, alpha)
    if cls == 'maxwell::GlobalEvolution':
        op = construct(ip, cls, [fes, model, src, opts])
    else:
        pd = construct(ip, 'maxwell::ProblemDescription', [model, cell(ip, ip.default_value('maxwell::Probes', None)), src.ext(('f', 'sources')), opts])
        op = construct(ip, cls, [pd, fes, src])
    return dg, ip, op, alpha


def configs(thorough):
    def cut(dim, nbr, names, nd, tags):
        fs, bc = rich(dim, nbr)
        fs = [f for f in fs if f.name in names or f.shared]
        return (dim, nbr, fs, {f.name: bc[f.name] for f in fs if f.name in bc}, nd, tags)
    ALL = ('i', 'j', 'pec', 'pmc', 'sma', 'ipec', 'ipmc', 'isma')
    EXT = ('i', 'j', 'pec', 'pmc', 'sma')
    out = [('1D, all conditions, one process', cut(1, 0, ALL, 2, [1, 2])),
           ('1D, exterior conditions, shared face', cut(1, 1, EXT, 1, [3, 1])),
           ('2D, all conditions, two neighbours', cut(2, 2, ALL, 1, [2, 1])),
           ('2D, two unknowns and points', cut(2, 1, ('i', 'pmc', 'ipec', 'isma'), 2, [1, 1])),
           ('3D, all conditions, one neighbour', cut(3, 1, ALL, 1, [1, 3])),
           ('3D, no interior boundary', cut(3, 0, EXT, 1, [1, 2])),
           ('3D, two unknowns and points', cut(3, 0, ('j', 'sma', 'ipmc'), 2, [1, 2]))]
    if thorough:
        out += [('3D, everything, two unknowns and points', cut(3, 2, ALL, 2, [2, 1]))]
    return out


def semidiscrete(cls, lossy):
    def check(ctx):
        p = ctx.prog(OPUNITS)
        ctx.rule('rate', 'every component of the time derivative equals the upwind discontinuous Galerkin form of the Maxwell equations: curl, tangential fluxes, conductivity and each boundary condition on its own faces')
        ctx.rule('memory', 'the derivative depends on the given state only: neither on earlier states nor on what the output held')
        ctx.rule('input', 'evaluating the derivative leaves the state unchanged')
        ctx.assumptions += ['elements with one or two unknowns, faces with one or two quadrature points, all geometry symbolic', 'library forms add the listed integrators over the listed faces']
        mult = virt(p, cls, 'Mult', 2)
        ctx.anchor(mult is not None, 'evolution operator not found')
        for name, cfg in configs(ctx.tier == 'thorough'):
            dg, ip, op, alpha = operator(ctx, p, cls, cfg)
            n = dg.ne * dg.nd
            mat = lambda k: [sym('%s%d' % (k, t)) for t in dg.tags]
            for tag in ('', 'b'):
                x, u = unknowns(dg, tag)
                want = law(dg, alpha, mat('eps'), mat('mu'), mat('sig') if lossy else None, cfg[3], u)
                inn = cell(ip, vec(x))
                out = cell(ip, vec([sym('old%s%d' % (tag, i)) for i in range(6 * n)]))
                ip.call_function(mult, [inn, out], op)
                o = ip.read(out)
                for (F, d, k), t in sorted(want.items()):
                    got = ip.term(ip.getc(o, ('i', num((3 * F + d) * n + k))))
                    ctx.equal('rate' if not tag else 'memory', got, t, where(mult) + ' ' + name, what='%s%s of unknown %d' % ('EH'[F], 'xyz'[d], k))
                i = ip.read(inn)
                for k, t in enumerate(x):
                    if ip.term(ip.getc(i, ('i', num(k)))) is not t:
                        ctx.bad('input', where(mult) + ' ' + name, 'state entry %d is overwritten' % k)
                        break
                else:
                    ctx.ok('input', where(mult) + ' ' + name)
                if dg.nd > 1:
                    break
    return check


def implicit(ctx):
    p = ctx.prog(OPUNITS)
    cls = 'maxwell::GlobalEvolution'
    ctx.rule('system', 'the stage is the solution of the linear system whose matrix is the identity minus the step times the semi-discrete operator')
    ctx.rule('right side', 'the right-hand side of the system is the semi-discrete rate of the given state')
    ctx.rule('result', 'what is handed back is the solution of that system')
    ctx.rule('input', 'the state is left unchanged')
    ctx.assumptions += ['elements with one unknown, all geometry symbolic', 'the linear solvers of the library solve the system they are given']
    imp = virt(p, cls, 'ImplicitSolve', 3)
    ctx.anchor(imp is not None, 'implicit stage not found')
    fs = configs(False)
    pick = [fs[1], fs[2], fs[5], (fs[4][0] + ', one process', (3, 0, [f for f in fs[4][1][2] if not f.shared]) + fs[4][1][3:])]
    if ctx.tier == 'thorough':
        pick += [fs[4], fs[0], fs[3]]
    pick = [x + (None,) for x in pick] + [('3D, a process without neighbours among several', fs[5][1], 3)]
    for name, cfg, procs in pick:
        dg, ip, op, alpha = operator(ctx, p, cls, cfg, procs)
        n = dg.ne * dg.nd
        mat = lambda k: [sym('%s%d' % (k, t)) for t in dg.tags]
        rate = lambda u: law(dg, alpha, mat('eps'), mat('mu'), mat('sig'), cfg[3], u)
        # a positive step is the square of something
        dts = [mul(sym('h'), sym('h')), mul(sym('k'), sym('k')), mul(sym('h'), sym('h'))]
        pos = TRUE
        w = where(imp) + ' ' + name
        for r, dt in enumerate(dts):
            x, u = unknowns(dg, 'xyz'[r])
            inn = cell(ip, vec(x))
            out = cell(ip, vec([sym('old%d_%d' % (r, i)) for i in range(6 * n)] if r != 1 else []))
            before = len(dg.inverses)
            ip.call_function(imp, [dt, inn, out], op)
            new = dg.inverses[before:]
            ctx.anchor(bool(new), 'the implicit stage solves no linear system the analysis understands')
            o = ip.read(out)
            want = ZERO
            for i in range(6 * n):
                got = ip.term(ip.getc(o, ('i', num(i))))
                want = None
                for k, (pc, so, a) in enumerate(new):
                    v = sym('solution%d_%d' % (before + k, i))
                    want = v if want is None else ite(pc, v, want)
                ctx.equal('result', got, want, w, pre=pos, what='entry %d' % i)
            law_ = rate(u)
            for pc, so, a in new:
                for (F, d, k), t in sorted(law_.items()):
                    got = ip.term(ip.getc(a, ('i', num((3 * F + d) * n + k))))
                    ctx.equal('right side', got, t, w, pre=b_and(pos, pc), what='%s%s of unknown %d' % ('EH'[F], 'xyz'[d], k))
                v, uv = unknowns(dg, 'v')
                lv_ = rate(uv)
                jv = apply_system(ip, dg, so, v)
                for (F, d, k), t in sorted(lv_.items()):
                    i = (3 * F + d) * n + k
                    ctx.equal('system', jv[i], sub(v[i], mul(dt, t)), w, pre=b_and(pos, pc), what='row %s%s of unknown %d, call %d' % ('EH'[F], 'xyz'[d], k, r + 1))
            i = ip.read(inn)
            ctx.hold('input', all(ip.term(ip.getc(i, ('i', num(k)))) is t for k, t in enumerate(x)), w, 'the state is overwritten')


def apply_system(ip, dg, so, v):
    """product of the matrix or operator handed to a linear solver with v"""
    of = so.f.get('#of')
    n = len(v)
    if isinstance(of, Ptr):
        lv = ip.deref(of)
        o = ip.read(lv)
        if isinstance(o, Obj) and 'cols' not in o.f:
            fn = virt(ip.p, o.cls, 'Mult', 2)
            if fn is None:
                raise AnalysisError('operator of a linear system not understood: %s' % o.cls)
            out = cell(ip, vec([sym('scratch%d' % i) for i in range(n)]))
            ip.call_function(fn, [cell(ip, vec(v)), out], lv)
            r = ip.read(out)
            return [ip.term(ip.getc(r, ('i', num(i)))) for i in range(n)]
        of = o
    if isinstance(of, Obj):
        return dg.product(ip, of, vec(v))
    if of is None:
        raise AnalysisError('linear solver without an operator')
    out = []
    for i in range(n):
        t = ZERO
        for j in range(n):
            t = add(t, mul(ip.term(ip.getc(of, ('i', mk('app', ('ij', num(i), num(j)), 'n')))), v[j]))
        out.append(t)
    return out


CHECKS = {'P14': semidiscrete('maxwell::GlobalEvolution', True), 'P15': semidiscrete('maxwell::MaxwellEvolution', False), 'P16': implicit}
