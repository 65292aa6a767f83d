"""Total-field/scattered-field surfaces: sub-meshes, sides, injected incident field."""
from fw import *
from terms import *
from checks.common import *
from checks.dg import *
from checks.dg import DG, Face, OPUNITS, PFES, law, make, unknowns
from checks.sources import ft_enum
from checks.model import bdr_enum, const_map, material

SUB = 'mfem::SubMesh'
FES = 'mfem::FiniteElementSpace'
INC = 'maxwell::EHFieldFunction'


class GeoDG(DG):
    """a DG mesh whose elements and tagged faces have vertices at given positions,
    with element attributes that can be changed and sub-meshes that can be cut out"""

    def __init__(self, dim, faces, verts, elems, fverts, **kw):
        DG.__init__(self, dim, faces, len(elems), **kw)
        self.verts, self.elems, self.fverts = verts, elems, fverts
        self.feslv = None

    def pos(self, e, i, d):
        """coordinate of a node of an element"""
        return sym('r%d_%d_%d' % (e, i, d)) if d < self.dim else ZERO

    def incident(self, k, e, i, F, d, t):
        return mk('app', ('inc%d' % k,) + tuple(self.pos(e, i, c) for c in range(3)) + (t, num(F), num(d)), 'n')

    def obj(self, cls='mfem::Mesh', base=None):
        o = DG.obj(self, cls, base)
        return o.with_('#els', self.elements(range(self.ne), self.tags)) if hasattr(o, 'with_') else Obj(o.cls, o.base, dict(o.f, **{'#els': self.elements(range(self.ne), self.tags)}))

    def elements(self, ids, attrs):
        return Arr('seq', None, num(len(list(ids))), {num(i): Obj('mfem::Element', None, {'#id': num(j), '#attr': num(a)}) for i, (j, a) in enumerate(zip(ids, attrs))}, None)

    def els(self, ip, o):
        a = o.f.get('#els') if isinstance(o, Obj) else None
        if not isinstance(a, Arr) or a.size.op != 'num':
            raise AnalysisError('elements of a mesh not understood: %r' % (o,))
        out = []
        for i in range(int(val(a.size))):
            x = a.e[num(i)]
            if isinstance(x, VIte):
                raise AnalysisError('element attribute not resolved')
            t = ip.term(x.f['#attr'])
            out.append((int(val(x.f['#id'])), t))
        return out

    def models(self):
        m = DG.models(self)
        base = m['construct']

        def const(t):
            return lambda ip, e, *r: t

        def ints(ip, e, lv, w, k=0):
            i = ip.term(ip.eval(e['args'][k]))
            if i.op != 'num':
                raise AnalysisError('index of a mesh entity not resolved in %s' % e.get('name'))
            return int(val(i))

        def cons(ip, e, T):
            T = T.replace('const ', '')
            if T in ('mfem::Mesh', SUB) and len(e['args']) == 1:
                v = ip.eval(e['args'][0])
                if isinstance(v, Obj) and '#els' in v.f:
                    return Obj(T if T == SUB else 'mfem::Mesh', v.base, dict(v.f))
            if T in (FES, PFES) and len(e['args']) >= 2:
                v = ip.eval(e['args'][0])
                if isinstance(v, Ptr):
                    vd = ip.term(ip.eval(e['args'][2])) if len(e['args']) > 2 else ONE
                    return Obj(T, sym('fes2', None), {'num_face_nbr_dofs': ZERO, '#mesh': v, '#vdim': vd})
            if T in ('mfem::GridFunction', 'mfem::ParGridFunction') and len(e['args']) == 1:
                v = ip.eval(e['args'][0])
                if isinstance(v, Ptr):
                    o = ip.read(ip.deref(v))
                    if isinstance(o, Obj) and o.cls in (FES, PFES):
                        if self.feslv is None and o.cls == PFES:
                            self.feslv = ip.deref(v)
                        return Arr('seq', None, num(self.ndofs(ip, o)), {}, ZERO)
                return v
            if T == 'mfem::FunctionCoefficient':
                v = ip.eval(e['args'][0])
                return v if isinstance(v, Obj) and v.cls == T else Obj(T, None, {'#fn': v, '#t': ZERO})
            return base(ip, e, T)
        m['construct'] = cons

        # ------------------------------------------------------------- meshes
        for c in ('mfem::Mesh', 'mfem::ParMesh', SUB):
            m[c + '::GetNE'] = lambda ip, e, lv, w: num(len(self.els(ip, ip.read(lv))))

            def getel(ip, e, lv, w):
                return Ptr(lv.ext(('f', '#els')).ext(('i', num(ints(ip, e, lv, w)))))
            m[c + '::GetElement'] = getel

            def setattr_(ip, e, lv, w):
                ip.write(lv.ext(('f', '#els')).ext(('i', num(ints(ip, e, lv, w)))).ext(('f', '#attr')), ip.eval(e['args'][1]))
            m[c + '::SetAttribute'] = setattr_

            def getattr_(ip, e, lv, w):
                return ip.getc(ip.read(lv), ('f', '#els')).e[num(ints(ip, e, lv, w))].f['#attr']
            m[c + '::GetAttribute'] = getattr_
            m[c + '::FinalizeMesh'] = const(None)
            m[c + '::Finalize'] = m[c + '::FinalizeTopology'] = const(None)

            def vertex(ip, e, lv, w):
                return Ptr(LV(ip.new_cell(vec([num(x) for x in self.verts[ints(ip, e, lv, w)]]))), ZERO)
            m[c + '::GetVertex'] = vertex

            def bverts(ip, e, lv, w):
                f = self.fverts[ints(ip, e, lv, w)]
                ip.write(ip.lval(e['args'][1]), vec([num(v) for v in f]))
            m[c + '::GetBdrElementVertices'] = m[c + '::GetFaceVertices'] = m[c + '::GetEdgeVertices'] = bverts

            def bel(ip, e, lv, w):
                return Ptr(cell(ip, Obj('mfem::Element', None, {'#f': num(ints(ip, e, lv, w)), '#attr': num(self.bdr[ints(ip, e, lv, w)])})))
            m[c + '::GetBdrElement'] = m[c + '::GetFace'] = bel
            m[c + '::GetBdrElementFaceIndex'] = lambda ip, e, lv, w: num(ints(ip, e, lv, w))

            def efaces(ip, e, lv, w):
                k = ints(ip, e, lv, w)
                fs = [i for i, f in enumerate(self.bfaces) if k in f.el]
                ip.write(ip.lval(e['args'][1]), vec([num(i) for i in fs]))
                ip.write(ip.lval(e['args'][2]), vec([ONE for i in fs]))
            m[c + '::GetElementEdges'] = m[c + '::GetElementFaces'] = efaces

            def bft(ip, e, lv, w):
                f = self.bfaces[ints(ip, e, lv, w)]
                return Ptr(cell(ip, Obj('mfem::FaceElementTransformations', sym('bt', None), {'Elem1No': num(f.el[0]), 'Elem2No': num(-1)}))) if f.el[1] is None else NULL
            m[c + '::GetBdrFaceTransformations'] = bft
            m[c + '::SetBdrAttribute'] = const(None)
            if c != SUB:
                old = m[c + '::GetFaceToBdrElMap']
            m[c + '::GetFaceToBdrElMap'] = lambda ip, e, lv, w: self.f2b(ip, ip.read(lv))

        E_ = 'mfem::Element::'

        def elv(ip, lv):
            o = ip.read(lv)
            if not isinstance(o, Obj):
                raise AnalysisError('mesh element not understood: %r' % (o,))
            return self.fverts[int(val(o.f['#f']))] if '#f' in o.f else self.elems[int(val(o.f['#id']))]

        def getverts(ip, e, lv, w):
            v = vec([num(x) for x in elv(ip, lv)])
            if e['args']:
                ip.write(ip.lval(e['args'][0]), v)
                return None
            return Ptr(LV(ip.new_cell(v)), ZERO)
        m[E_ + 'GetVertices'] = getverts
        m[E_ + 'GetNVertices'] = lambda ip, e, lv, w: num(len(elv(ip, lv)))

        def seta(ip, e, lv, w):
            ip.write(lv.ext(('f', '#attr')), ip.eval(e['args'][0]))
        m[E_ + 'SetAttribute'] = seta
        m[E_ + 'GetAttribute'] = lambda ip, e, lv, w: ip.getc(ip.read(lv), ('f', '#attr'))

        # ---------------------------------------------------------- sub-meshes
        def cut(ip, e, *r):
            a = ip.lval_or_val(e['args'][0])
            parent = ip.read(a) if isinstance(a, LV) else a
            attrs = ip.eval(e['args'][1])
            n = ip.size_of(attrs)
            want = [ip.term(ip.getc(attrs, ('i', num(i)))) for i in range(int(val(n)))]
            ids = []
            for j, t in self.els(ip, parent):
                c = FALSE
                for x in want:
                    c = b_or(c, self.same(t, x))
                if c not in (TRUE, FALSE):
                    raise AnalysisError('membership of element %d in a sub-mesh not resolved: %s' % (j, show(c)[:200]))
                if c is TRUE:
                    ids.append((j, t))
            return Obj(SUB, sym('sub', None), {'#pmap': vec([num(j) for j, _ in ids]), '#els': Arr('seq', None, num(len(ids)), {num(i): Obj('mfem::Element', None, {'#id': num(j), '#attr': t}) for i, (j, t) in enumerate(ids)}, None),
                                               'attributes': vec([ONE]), 'bdr_attributes': vec([ONE])})
        m[SUB + '::CreateFromDomain'] = cut
        m[SUB + '::GetParentElementIDMap'] = lambda ip, e, lv, w: lv.ext(('f', '#pmap'))
        m[SUB + '::GetFrom'] = const(num(0))

        def fmap(ip, e, w=None):
            a = ip.lval_or_val(e['args'][1])
            child = ip.read(a) if isinstance(a, LV) else a
            return vec([num(i) for i in self.faces_of(ip, child)])
        m['mfem::SubMeshUtils::BuildFaceMap'] = fmap

        def vmap(ip, e, w=None):
            ids = ip.eval(e['args'][3])
            n = int(val(ip.size_of(ids)))
            out = []
            for k in range(n):
                j = int(val(ip.term(ip.getc(ids, ('i', num(k))))))
                out += [num(j * self.nd + i) for i in range(self.nd)]
            ip.write(ip.lval(e['args'][4]), vec(out))
        m['mfem::SubMeshUtils::BuildVdofToVdofMap'] = vmap

        # --------------------------------------------------------------- spaces
        for c in (PFES, FES):
            m[c + '::GetNDofs'] = lambda ip, e, lv, w: num(self.ndofs(ip, ip.read(lv), False))
            m[c + '::GetVSize'] = m[c + '::GetTrueVSize'] = m[c + '::TrueVSize'] = lambda ip, e, lv, w: num(self.ndofs(ip, ip.read(lv)))
            m[c + '::GetNE'] = lambda ip, e, lv, w: num(len(self.mesh_of(ip, ip.read(lv))))

            def edofs(ip, e, lv, w):
                k = ints(ip, e, lv, w)
                if not 0 <= k < len(self.mesh_of(ip, ip.read(lv))):
                    raise AnalysisError('unknowns of element %d asked for, which the space does not have' % k)
                ip.write(ip.lval(e['args'][1]), vec([num(k * self.nd + i) for i in range(self.nd)]))
            m[c + '::GetElementDofs'] = m[c + '::GetElementVDofs'] = edofs

            def getfe(ip, e, lv, w):
                return Ptr(cell(ip, Obj('mfem::FiniteElement', sym('fe', None), {})))
            m[c + '::GetFE'] = getfe

            def etr(ip, e, lv, w):
                k = ints(ip, e, lv, w)
                return Ptr(cell(ip, Obj('mfem::ElementTransformation', sym('et', None), {'#el': num(self.mesh_of(ip, ip.read(lv))[k])})))
            m[c + '::GetElementTransformation'] = etr
        for c in ('mfem::Mesh', 'mfem::ParMesh', SUB):
            def metr(ip, e, lv, w):
                k = ints(ip, e, lv, w)
                return Ptr(cell(ip, Obj('mfem::ElementTransformation', sym('et', None), {'#el': num(self.els(ip, ip.read(lv))[k][0])})))
            m[c + '::GetElementTransformation'] = metr
        m['mfem::FiniteElement::GetNodes'] = lambda ip, e, lv, w: cell(ip, Obj('mfem::IntegrationRule', sym('nodes', None), {'#nodes': ONE}))

        def npts(ip, e, lv, w):
            o = ip.read(lv)
            return num(self.nd if isinstance(o, Obj) and '#nodes' in o.f else self.nq)
        m['mfem::IntegrationRule::GetNPoints'] = m['mfem::IntegrationRule::Size'] = npts
        oldip = m['mfem::IntegrationRule::IntPoint']

        def point(ip, e, lv, w):
            o = ip.read(lv)
            if isinstance(o, Obj) and '#nodes' in o.f:
                return cell(ip, Obj('mfem::IntegrationPoint', sym('np', None), {'#node': ip.term(ip.eval(e['args'][0]))}))
            return oldip(ip, e, lv, w)
        m['mfem::IntegrationRule::IntPoint'] = point

        def transform(ip, e, lv, w):
            o = ip.read(lv)
            a = ip.lval_or_val(e['args'][0])
            pt = ip.read(a) if isinstance(a, LV) else a
            if not isinstance(pt, Obj) or '#node' not in pt.f or '#el' not in o.f:
                raise AnalysisError('position of a point not understood')
            ip.write(ip.lval(e['args'][1]), vec([self.pos(int(val(o.f['#el'])), int(val(pt.f['#node'])), d) for d in range(self.dim)]))
        for c in ('mfem::ElementTransformation', 'mfem::IsoparametricTransformation'):
            m[c + '::Transform'] = transform
            m[c + '::SetIntPoint'] = const(None)

        # ------------------------------------------------------- grid functions
        def setspace(ip, e, lv, w):
            v = ip.eval(e['args'][0])
            o = ip.read(ip.deref(v))
            if self.feslv is None and isinstance(o, Obj) and o.cls == PFES:
                self.feslv = ip.deref(v)
            ip.rebind(lv, Arr('seq', None, num(self.ndofs(ip, o)), {}, ZERO))
        for c in ('mfem::ParGridFunction', 'mfem::GridFunction'):
            m[c + '::SetSpace'] = setspace
            m[c + '::FESpace'] = m[c + '::ParFESpace'] = lambda ip, e, lv, w: Ptr(self.feslv)
            m[c + '::ProjectCoefficient'] = self.project

        def settime(ip, e, lv, w):
            ip.write(lv.ext(('f', '#t')), ip.eval(e['args'][0]))
        for c in ('mfem::Coefficient', 'mfem::FunctionCoefficient'):
            m[c + '::SetTime'] = settime
        m['mfem::TimeDependentOperator::GetTime'] = const(sym('time'))

        # --------------------------------------------------------------- sources
        def incval(ip, e, lv, w):
            o = ip.read(lv)
            p = ip.eval(e['args'][0])
            n = int(val(ip.size_of(p)))
            xs = [ip.term(ip.getc(p, ('i', num(i)))) if i < n else ZERO for i in range(3)]
            t, F, d = [ip.term(ip.eval(a)) for a in e['args'][1:]]
            F, d = [num(x.args[1]) if x.op == 'enumc' else x for x in (F, d)]
            return mk('app', ('inc%d' % int(val(o.f['#k'])),) + tuple(xs) + (t, F, d), 'n')
        m[INC + '::eval'] = incval
        m[INC + '::clone'] = lambda ip, e, lv, w: Ptr(cell(ip, ip.read(lv)))

        def fval(ip, e, lv, w):
            o = ip.read(lv)
            p = ip.eval(e['args'][0])
            n = int(val(ip.size_of(p)))
            xs = [ip.term(ip.getc(p, ('i', num(i)))) if i < n else ZERO for i in range(3)]
            return mk('app', ('init%d' % int(val(o.f['#k'])),) + tuple(xs), 'n')
        m['maxwell::Function::eval'] = fval
        m['maxwell::Function::clone'] = lambda ip, e, lv, w: Ptr(cell(ip, ip.read(lv)))
        return m

    @staticmethod
    def same(a, b):
        f = lambda t: num(t.args[1]) if t.op == 'enumc' else t
        return b_eq(f(a), f(b))

    def faces_of(self, ip, o):
        ids = [j for j, _ in self.els(ip, o)]
        return [i for i, f in enumerate(self.bfaces) if any(x in ids for x in f.el if x is not None)]

    def f2b(self, ip, o):
        return vec([num(i) for i in range(len(self.faces_of(ip, o)))])

    def mesh_of(self, ip, o):
        if not isinstance(o, Obj) or '#mesh' not in o.f:
            raise AnalysisError('finite element space not understood: %r' % (o,))
        mo = ip.read(ip.deref(o.f['#mesh']))
        return [j for j, _ in self.els(ip, mo)]

    def ndofs(self, ip, o, v=True):
        n = len(self.mesh_of(ip, o)) * self.nd
        return n * int(val(o.f['#vdim'])) if v and '#vdim' in o.f else n

    def fes(self, ip, mesh):
        self.feslv = DG.fes(self, ip, mesh)
        return self.feslv

    def project(self, ip, e, lv, w):
        a = ip.lval_or_val(e['args'][0])
        c = ip.read(a) if isinstance(a, LV) else a
        cur = ip.read(lv)
        n = ip.size_of(cur)
        if not isinstance(c, Obj) or '#fn' not in c.f or n.op != 'num':
            raise AnalysisError('projected coefficient not understood: %r' % (c,))
        n = int(val(n))
        if n == self.ne * self.nd:
            ids = range(self.ne)
        elif n == len(self.subids) * self.nd:
            ids = self.subids
        else:
            raise AnalysisError('space of a projected function not resolved')
        out = []
        for j in ids:
            for i in range(self.nd):
                x = cell(ip, vec([self.pos(j, i, d) for d in range(self.dim)]))
                out.append(ip.term(ip.invoke(c.f['#fn'], [x, cell(ip, c.f['#t'])])))
        ip.write(lv, vec(out))


def waves(ip, p, n, init=0):
    """n total-field sources and some initial fields, interleaved"""
    items = []
    for k in range(max(n, init)):
        if k < init:
            f = cell(ip, Obj('maxwell::Function', sym('f%d' % k, None), {'#k': num(k)}))
            x = construct(ip, 'maxwell::InitialField', [f, ft_enum(p)['EH'[k % 2]], vec([sym('p%d_%d' % (k, d)) for d in range(3)]), vec([sym('c%d_%d' % (k, d)) for d in range(3)])])
            items.append(Ptr(x))
        if k < n:
            f = cell(ip, Obj(INC, sym('inc%d' % k, None), {'#k': num(k)}))
            items.append(Ptr(construct(ip, 'maxwell::TotalField', [f])))
    src = cell(ip, ip.default_value('maxwell::Sources', None))
    add_ = [f for f in p.fn.values() if f.get('cls') == 'maxwell::Sources' and f['name'] == 'add' and f.get('body') is not None and 'unique_ptr' in f['params'][0]['T']]
    if not add_:
        raise AnalysisError('list of sources cannot be filled')
    for x in items:
        ip.call_function(add_[0], [cell(ip, x)], src)
    return src


def setups(thorough):
    """name, dimension, faces, vertices, elements, face vertices, total side of each tagged face"""
    out = []
    # a line: scattered | total total | scattered, further element outside
    fs = [Face('a', (0, 1), 7), Face('b', (1, 2)), Face('c', (2, 3), 7), Face('d', (3, 4)), Face('w', (4, None), 1)]
    line = dict(verts=[(i,) for i in range(6)], elems=[(i, i + 1) for i in range(5)])
    out.append(('1D, two points', 1, fs, line['verts'], line['elems'], [(1,), (3,), (5,)], {'a': 1, 'c': 2}, 1))
    fs = [Face('a', (1, 2), 7), Face('b', (0, 1)), Face('d', (2, 3)), Face('w', (0, None), 1)]
    out.append(('1D, one point', 1, fs, line['verts'], line['elems'][:4], [(2,), (0,)], {'a': 2}, 2))
    # quadrilaterals in a row, the face between two of them in either direction
    q = dict(verts=[(x, y) for x in range(4) for y in range(2)], elems=[(0, 2, 3, 1), (2, 4, 5, 3), (4, 6, 7, 5)])
    fs = [Face('a', (0, 1), 7), Face('b', (1, 2)), Face('w', (2, None), 1)]
    out.append(('2D, total side to the right of the face', 2, fs, q['verts'], q['elems'], [(2, 3), (6, 7)], {'a': 1}, 1))
    out.append(('2D, reversed face', 2, fs, q['verts'], q['elems'], [(3, 2), (6, 7)], {'a': 0}, 1))
    fs = [Face('a', (0, 1), 7), Face('b', (1, 2), 7), Face('w', (2, None), 1), Face('x', (3, 2))]
    q4 = dict(verts=[(x, y) for x in range(5) for y in range(2)], elems=q['elems'] + [(6, 8, 9, 7)])
    out.append(('2D, total region between two faces', 2, fs, q4['verts'], q4['elems'], [(2, 3), (5, 4), (6, 7)], {'a': 1, 'b': 1}, 1))
    # bricks in a row
    bv = [(x, y, z) for x in range(5) for y in range(2) for z in range(2)]
    be = [tuple(4 * i + k for k in range(8)) for i in range(4)]
    fv = lambda i: tuple(4 * i + k for k in range(4))
    fs = [Face('a', (0, 1), 7), Face('b', (2, 1), 7), Face('x', (2, 3)), Face('w', (3, None), 1)]
    out.append(('3D, total region between two faces', 3, fs, bv, be, [fv(1), fv(2), fv(4)], {'a': 1, 'b': 1}, 1))
    return out


def inject(cls):
    def check(ctx):
        p = ctx.prog(OPUNITS)
        ctx.rule('injection', 'the rate equals the source-free rate with the jump across every tagged face reduced by the incident field seen from the total side and increased by it seen from the scattered side')
        ctx.rule('implicit', 'the right-hand side of an implicit stage carries the incident field in the same way')
        ctx.rule('again', 'a second evaluation, at another state, sees the incident field once more and only once')
        ctx.assumptions += ['elements with one or two unknowns in a row, positions of nodes symbolic', 'the incident field on a face is the mean of the two traces', 'incident fields whose norm on the surface is below 1e-6 may be ignored']
        mult = virt(p, cls, 'Mult', 2)
        imp = virt(p, cls, 'ImplicitSolve', 3)
        ctx.anchor(mult is not None, 'evolution operator not found')
        for name, dim, faces, verts, elems, fverts, side, nd in setups(ctx.tier == 'thorough'):
            for nsrc in (1, 2):
                tags = [1 + (e % 2) for e in range(len(elems))]
                dg = GeoDG(dim, faces, verts, elems, fverts, tags=tags, nd=nd, nq=nd)
                dg.subids = sorted({e for f in faces if f.name in side for e in f.el})
                ip = ctx.interp(p, models=dg.models())
                ip.views = True
                op, alpha = build(p, ip, dg, cls, nsrc, init=1)
                n = dg.ne * dg.nd
                mat = lambda k: [sym('%s%d' % (k, t)) for t in dg.tags]
                t = sym('time')

                def shift(f, s, F, d, q):
                    if f.name not in side:
                        return ZERO
                    r = ZERO
                    for k in range(nsrc):
                        for s2 in (0, 1):
                            for j in range(nd):
                                r = add(r, mul(dg.shape(f, s2, j, q), dg.incident(k, f.el[s2], j, F, d, t)))
                    r = mul(HALF, r)
                    return neg(r) if f.el[s] == side[f.name] else r
                norm = ZERO
                for e in dg.subids:
                    for j in range(nd):
                        for F in (0, 1):
                            for d in range(3):
                                v = ZERO
                                for k in range(nsrc):
                                    v = add(v, dg.incident(k, e, j, F, d, t))
                                norm = add(norm, mul(v, v))
                pre = b_not(b_lt(norm, num(Fraction(1, 10 ** 12))))
                bc = {'w': 'PEC'}
                for tag in ('', 'b'):
                    x, u = unknowns(dg, tag)
                    want = law(dg, alpha, mat('eps'), mat('mu'), mat('sig'), bc, u, shift=shift)
                    out = cell(ip, vec([sym('old%s%d' % (tag, i)) for i in range(6 * n)]))
                    ip.call_function(mult, [cell(ip, vec(x)), out], op)
                    o = ip.read(out)
                    for (F, d, k), tt in sorted(want.items()):
                        got = ip.term(ip.getc(o, ('i', num((3 * F + d) * n + k))))
                        ctx.equal('injection' if not tag else 'again', got, tt, where(mult) + ' ' + name, pre=pre, what='%s%s of unknown %d, %d sources' % ('EH'[F], 'xyz'[d], k, nsrc))
                    if nsrc > 1:
                        break
                if nsrc > 1:
                    continue
                # the implicit stage sees the same source
                x, u = unknowns(dg, 'c')
                want = law(dg, alpha, mat('eps'), mat('mu'), mat('sig'), bc, u, shift=shift)
                before = len(dg.inverses)
                ip.call_function(imp, [mul(sym('h'), sym('h')), cell(ip, vec(x)), cell(ip, vec([sym('oldc%d' % i) for i in range(6 * n)]))], op)
                ctx.anchor(len(dg.inverses) > before, 'the implicit stage solves no linear system the analysis understands')
                for pc, so, a in dg.inverses[before:]:
                    for (F, d, k), tt in sorted(want.items()):
                        got = ip.term(ip.getc(a, ('i', num((3 * F + d) * n + k))))
                        ctx.equal('implicit', got, tt, where(imp) + ' ' + name, pre=b_and(pre, pc), what='%s%s of unknown %d' % ('EH'[F], 'xyz'[d], k))
    return check


def initial(ctx):
    p = ctx.prog(OPUNITS)
    ctx.rule('start', 'every starting value is the sum over the initial-field sources of their value for that field, direction and position')
    for name, dim, faces, verts, elems, fverts, side, nd in setups(False):
        for ninit, nsrc in ((0, 1), (1, 0), (2, 1), (3, 2)):
            dg = GeoDG(dim, faces, verts, elems, fverts, nd=nd, nq=nd)
            dg.subids = []
            ip = ctx.interp(p, models=dg.models())
            ip.views = True
            mesh = cell(ip, dg.obj('mfem::ParMesh'))
            fes = dg.fes(ip, mesh)
            fields = construct(ip, 'maxwell::Fields<mfem::ParFiniteElementSpace, mfem::ParGridFunction>', [fes])
            construct(ip, 'maxwell::SourcesManager', [waves(ip, p, nsrc, ninit), fes, fields])
            w = where(find_ctor(p, 'maxwell::SourcesManager', 3)) + ' ' + name
            all_ = ip.read(ip.call_function(virt(p, ip.read(fields).cls, 'allDOFs', 0), [], fields, retlv=True))
            n = dg.ne * nd
            ctx.hold('start', ip.size_of(all_) is num(6 * n), w, 'six components of every unknown')
            for F in (0, 1):
                for d in range(3):
                    for e in range(dg.ne):
                        for i in range(nd):
                            t = ZERO
                            for k in range(ninit):
                                if k % 2 == F:
                                    xs = [sub(dg.pos(e, i, c), sym('c%d_%d' % (k, c))) if c < dim else ZERO for c in range(3)]
                                    t = add(t, mul(mk('app', ('init%d' % k,) + tuple(xs), 'n'), sym('p%d_%d' % (k, d))))
                            j = e * nd + i
                            ctx.equal('start', ip.term(ip.getc(all_, ('i', num((3 * F + d) * n + j)))), t, w, what='%s%s of unknown %d, %d initial fields and %d other sources' % ('EH'[F], 'xyz'[d], j, ninit, nsrc))
                            g = ip.read(ip.call_function(virt(p, ip.read(fields).cls, 'get', 2), [ft_enum(p)['EH'[F]], num(d)], fields, retlv=True))
                            ctx.equal('start', ip.term(ip.getc(g, ('i', num(j)))), t, w, what='%s%s of unknown %d through the field accessor' % ('EH'[F], 'xyz'[d], j))


def build(p, ip, dg, cls, nsrc, init=0):
    alpha = sym('alpha')
    E = bdr_enum(p)
    mats = {t: material(ip, t)[0] for t in sorted(set(dg.tags))}
    ext = {f.attr: E['PEC'] for f in dg.bfaces if f.el[1] is None}
    mi = Obj('maxwell::GeomTagToMaterialInfo', None, {'gt2m': const_map(mats), 'gt2bm': const_map({})})
    bi = Obj('maxwell::GeomTagToBoundaryInfo', None, {'gt2b': const_map(ext), 'gt2ib': const_map({})})
    mesh = cell(ip, dg.obj('mfem::ParMesh'))
    model = construct(ip, 'maxwell::Model', [mesh, mi, bi, NULL, sym('comm', None)])
    marks = [ZERO] * max(f.attr for f in dg.bfaces)
    for f in dg.bfaces:
        if f.el[1] is not None:
            marks[f.attr - 1] = ONE
    ip.write(ip.call_function(virt(p, 'maxwell::Model', 'getTotalFieldScatteredFieldToMarker', 0), [], model, retlv=True), Arr('map', None, ONE, {E['TotalFieldIn']: vec(marks)}, None))
    fes = dg.fes(ip, mesh)
    srcs = waves(ip, p, nsrc, init)
    fields = construct(ip, 'maxwell::Fields<mfem::ParFiniteElementSpace, mfem::ParGridFunction>', [fes])
    sm = construct(ip, 'maxwell::SourcesManager', [srcs, fes, fields])
    opts = cell(ip, ip.default_value('maxwell::EvolutionOptions', None))
    ip.write(opts.ext(('f', 'alpha')), alpha)
    return construct(ip, cls, [fes, model, sm, opts]), alpha


CHECKS = {'P17': inject('maxwell::GlobalEvolution'), 'P18': initial}
