"""Automatic time step: derived from the whole mesh, order and operator."""
from fw import *
from terms import *
from checks.common import *
from checks.dg import Face, OPUNITS, PFES
from checks.tfsf import FES
from checks.model import bdr_enum
from checks.solver import RunModel, Run, OPERATORS, OPAQUE
import checks.solver as solver

SHAPES = {   # vertices per element, its faces as vertex indices, divisor of the step
    'SEGMENT': (1, 2, [(0,), (1,)]),
    'TRIANGLE': (2, 3, [(0, 1), (1, 2), (2, 0)]),
    'QUADRILATERAL': (2, 4, [(0, 1), (1, 2), (2, 3), (3, 0)]),
    'TETRAHEDRON': (3, 4, [(1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1)]),
    'HEXAHEDRON': (3, 8, [(3, 2, 1, 0), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7), (4, 5, 6, 7)]),
}
HEST = OPERATORS['Hesthaven']


class StepModel(RunModel):
    """the whole mesh has elements of any size; this process owns the first only"""
    elshape, deg, whole = 'SEGMENT', 1, 3

    def types_(self):
        return num(1 + list(SHAPES).index(self.elshape))

    def coord(self, v, d):
        return sym('x%d_%d' % (v, d))

    def models(self):
        m = RunModel.models(self)
        base = m['construct']
        dim, nv, faces = SHAPES[self.elshape]

        def const(t):
            return lambda ip, e, *r: t

        def int_(ip, e, k=0):
            t = ip.term(ip.eval(e['args'][k]))
            if t.op != 'num':
                raise AnalysisError('mesh entity not resolved in %s: %s' % (e.get('name'), show(t)[:200]))
            return int(val(t))

        def is_line(ip, lv):
            o = ip.read(lv)
            return isinstance(o, Obj) and '#line' in o.f

        def cons(ip, e, T):
            T = T.replace('const ', '')
            if T in ('mfem::Mesh', 'mfem::ParMesh') and e['args']:
                a = [ip.lval_or_val(x) for x in e['args']]
                a = [ip.read(x) if isinstance(x, LV) else x for x in a]
                for v in a:
                    if isinstance(v, Obj) and ('#els' in v.f or '#line' in v.f):
                        if T == 'mfem::ParMesh' and len(a) > 1:
                            return Obj(T, v.base, dict(v.f, **{'#els': self.elements([0], [1])}))
                        return Obj(T, v.base, dict(v.f))
            if T in ('mfem::DG_FECollection', 'mfem::L2_FECollection') and len(e['args']) > 1:
                a = [ip.term(ip.eval(x)) for x in e['args']]
                return Obj(T, sym('fec', None), {'#order': a[0], '#dim': a[1], '#basis': a[2] if len(a) > 2 else ZERO})
            if T in (FES, PFES) and len(e['args']) >= 2:
                v = ip.eval(e['args'][0])
                if isinstance(v, Ptr):
                    return Obj(T, sym('fes2', None), {'num_face_nbr_dofs': ZERO, '#mesh': v, '#vdim': ONE, '#fec': ip.eval(e['args'][1])})
            if T == 'mfem::GridFunction' and len(e['args']) == 1:
                v = ip.eval(e['args'][0])
                o = ip.read(ip.deref(v)) if isinstance(v, Ptr) else v
                if isinstance(o, Obj) and '#fec' in o.f:
                    fec = ip.read(ip.deref(o.f['#fec']))
                    mesh = ip.read(ip.deref(o.f['#mesh']))
                    n = int(val(fec.f['#order'])) + 1
                    if '#line' in mesh.f:
                        return Arr('seq', None, num(n * int(val(mesh.f['#line']))), {}, UNDEF)
                    return Arr('seq', None, num(n * len(self.els(ip, mesh))), {}, UNDEF)
            return base(ip, e, T)
        m['construct'] = cons

        def line(ip, e, *r):
            a = [ip.term(ip.eval(x)) for x in e['args']]
            return Obj('mfem::Mesh', sym('line', None), {'#line': a[0], '#len': a[1] if len(a) > 1 else ONE})

        for c in ('mfem::Mesh', 'mfem::ParMesh'):
            m[c + '::MakeCartesian1D'] = line
            old = {k: m.get(c + '::' + k) for k in ('GetNE', 'Dimension', 'GetElementSize')}

            def ne(ip, e, lv, w):
                return ip.read(lv).f['#line'] if is_line(ip, lv) else num(len(self.els(ip, ip.read(lv))))
            m[c + '::GetNE'] = ne
            m[c + '::Dimension'] = m[c + '::SpaceDimension'] = lambda ip, e, lv, w: ONE if is_line(ip, lv) else num(dim)

            def nodes(ip, e, lv, w):
                if not e['args']:
                    return NULL
                g = ip.lval(e['args'][0])
                n = int(val(ip.size_of(ip.read(g))))
                if is_line(ip, lv):
                    o = ip.read(lv)
                    if o.f['#line'] is not ONE:
                        raise AnalysisError('nodes of a reference line of several elements')
                    if n == 1:
                        ip.write(g, vec([mul(o.f['#len'], num(Fraction(1, 2)))]))
                    else:
                        ip.write(g, vec([mul(o.f['#len'], ZERO if i == 0 else ONE if i == n - 1 else sym('+gl%d_%d' % (n - 1, i))) for i in range(n)]))
                else:
                    ids = [j for j, _ in self.els(ip, ip.read(lv))]
                    k = n // len(ids)
                    ip.write(g, vec([sym('node%d_%d' % (j, i)) for j in ids for i in range(k)]))
            m[c + '::GetNodes'] = nodes

            def size(ip, e, lv, w):
                if is_line(ip, lv):
                    o = ip.read(lv)
                    return div(o.f['#len'], o.f['#line'])
                return sym('+size%d' % self.els(ip, ip.read(lv))[int_(ip, e)][0])
            m[c + '::GetElementSize'] = size
            m[c + '::GetElementVolume'] = lambda ip, e, lv, w: sym('+vol%d' % self.els(ip, ip.read(lv))[int_(ip, e)][0])
            m[c + '::GetElementType'] = lambda ip, e, lv, w: self.types_()

            def efaces(ip, e, lv, w):
                k = self.els(ip, ip.read(lv))[int_(ip, e)][0]
                ip.write(ip.lval(e['args'][1]), vec([num(k * len(faces) + i) for i in range(len(faces))]))
                ip.write(ip.lval(e['args'][2]), vec([ONE for i in faces]))
            m[c + '::GetElementEdges'] = m[c + '::GetElementFaces'] = efaces

            def fverts(ip, e, lv, w):
                k, i = divmod(int_(ip, e), len(faces))
                ip.write(ip.lval(e['args'][1]), vec([num(self.vert(k, v)) for v in faces[i]]))
            m[c + '::GetEdgeVertices'] = m[c + '::GetFaceVertices'] = fverts
            m[c + '::GetVertex'] = lambda ip, e, lv, w: Ptr(LV(ip.new_cell(vec([self.coord(int_(ip, e), d) for d in range(dim)]))), ZERO)

            def el2el(ip, e, lv, w):
                return cell(ip, Obj('mfem::Table', sym('e2e', None), {'#rows': ne(ip, e, lv, w)}))
            m[c + '::ElementToElementTable'] = el2el
        m['mfem::Table::Size'] = lambda ip, e, lv, w: ip.getc(ip.read(lv), ('f', '#rows'))
        for c in (PFES, FES):
            def edofs(ip, e, lv, w):
                o = ip.read(lv)
                fec = ip.read(ip.deref(o.f['#fec']))
                k, n = int_(ip, e), int(val(fec.f['#order'])) + 1
                if not 0 <= k < len(self.els(ip, ip.read(ip.deref(o.f['#mesh'])))):
                    raise AnalysisError('unknowns of an element the space does not have')
                ip.write(ip.lval(e['args'][1]), vec([num(k * n + i) for i in range(n)]))
            m[c + '::GetElementDofs'] = edofs
        m[HEST + '::getHesthavenElement'] = lambda ip, e, lv, w: cell(ip, Obj('maxwell::HesthavenElement', sym('he', None), {'fscale': vec([sym('+fs%d_%d' % (int_(ip, e), i)) for i in range(2)])}))
        return m

    def vert(self, k, i):
        return k * 8 + i

    # ------------------------------------------------------------- oracle
    def least(self, xs):
        t = xs[0]
        for x in xs[1:]:
            t = f_minmax('min', t, x)
        return t

    def expect(self, op, cfl):
        dim, nv, faces = SHAPES[self.elshape]
        if dim == 1:
            if self.deg == 0:
                return mul(cfl, self.least([sym('+size%d' % k) for k in range(self.whole)]))
            n = self.deg + 1
            t = self.least([f_abs(sub(sym('node%d_%d' % (k, i)), sym('node%d_%d' % (k, j)))) for k in range(self.whole) for i in range(n) for j in range(i + 1, n)])
            return mul(cfl, div(t, f_sqrt(num(self.deg ** 3))))
        if op == 'Hesthaven' and dim == 3:
            t = ZERO
            for k in range(self.whole):
                for i in range(2):
                    t = f_minmax('max', t, sym('+fs%d_%d' % (k, i)))
            return div(cfl, mul(t, num(self.deg ** 2)))
        per = []
        for k in range(self.whole):
            s = ZERO
            for f in faces:
                a, b = [[sub(self.coord(self.vert(k, f[j]), d), self.coord(self.vert(k, f[0]), d)) for d in range(dim)] for j in ((1, 1) if dim == 2 else (1, 2))]
                if dim == 2:
                    s = add(s, f_sqrt(add(mul(a[0], a[0]), mul(a[1], a[1]))))
                else:
                    c = [sub(mul(a[(i + 1) % 3], b[(i + 2) % 3]), mul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)]
                    s = add(s, mul(num(Fraction(1, 2)), f_sqrt(add(add(mul(c[0], c[0]), mul(c[1], c[1])), mul(c[2], c[2])))))
            per.append(div(sym('+vol%d' % k), mul(num(Fraction(1, 2)), s)))
        r = num(2) if self.deg < 2 else mul(num(2), sym('+gl%d_1' % self.deg))
        t = mul(mul(self.least(per), r), num(Fraction(1, 2)))
        t = mul(cfl, t)
        if self.elshape == 'QUADRILATERAL':
            t = mul(t, num(Fraction(1, 2)))
        if self.elshape == 'HEXAHEDRON':
            t = mul(t, num(Fraction(1, 6)))
        if op == 'Global' and dim == 3:
            t = mul(t, num(Fraction(5, 4)))
        return t


def automatic(ctx):
    p = ctx.prog(OPUNITS)
    ctx.rule('automatic step', 'without a step in the case the step is cfl times the one of the smallest element of the whole mesh, for the order and the operator')
    ctx.rule('given step', 'a step given in the case is used as it is, whatever the mesh')
    solver.use(solver.SYMDT)
    cfl = sym('+cfl')
    f = [x for x in p.fn.values() if x.get('cls') == 'maxwell::Solver' and x['name'] == 'getTimeStep' and x.get('body') is not None][0]
    w = where(virt(p, 'maxwell::Solver', 'run', 0))
    for shape, (dim, nv, faces) in SHAPES.items():
        for order in (0, 1, 2, 3) if ctx.tier != 'thorough' else (0, 1, 2, 3, 4, 5):
            for op in OPERATORS:
                if dim == 1 and op == 'Hesthaven' or dim == 3 and op == 'Hesthaven' and order == 0:
                    continue
                for given in (False, True):
                    if given and order != 1:
                        continue
                    if op == 'Maxwell' and order > 1:
                        continue
                    K = type('K', (StepModel,), {'elshape': shape, 'deg': order})
                    what = '%s, order %d, %s operator' % (shape.lower(), order, op)
                    opts = {'cfl': cfl, 'evolution.order': num(order)}
                    if not given:
                        opts['time_step'] = ZERO
                    nvs = K.whole * 8
                    geo = ([Face('v', (0, None), 1), Face('w', (0, None), 2)], [(0,) * dim] * nvs, [tuple(k * 8 + i for i in range(nv)) for k in range(K.whole)], [(0,), (1,)])
                    r = Run(ctx, p, Fraction(3), dim=dim, op=op, init=0, nd=order + 1, cls=K, geo=geo, opts=opts)
                    got = r.ip.term(r.ip.call_function(f, [], r.solver))
                    ctx.equal('given step' if given else 'automatic step', got, solver.DT if given else r.dg.expect(op, cfl), w, what='time step, ' + what)
                    ctx.sites += 1


CHECKS = {'P26': automatic}
