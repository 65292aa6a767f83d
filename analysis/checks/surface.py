"""Recordings of the fields next to a surface: which elements, which faces, when, and in which layout."""
from fw import *
from terms import *
from checks.common import *
from checks.dg import *
from checks.dg import Face
from checks.tfsf import SUB, FES
from checks.solver import RunModel, Run, lines, values, COMP, due, padded, use, SYMDT
from checks.rcs import Files
import checks.solver as S
import prog

UNITS = [u for u in prog.all_sources() if not u.startswith(('src/driver', 'src/launcher'))]
MESHES = ('mfem::Mesh', 'mfem::ParMesh', SUB)


class SurfaceModel(Files, RunModel):
    """sub-meshes know their boundary elements: the tagged faces of the parent and the faces laid open"""

    def __init__(self, *a, **kw):
        self.bins, self.listing, self.torn = {}, {}, []
        self.cuts, self.saved, self.views = [], [], {}
        RunModel.__init__(self, *a, **kw)
        self.nq = 2
        self.dirs |= {''}

    def qpos(self, f, q):
        return [sym('x_%s_%d_%d' % (f.name, d, q)) for d in range(self.dim)]

    def open_faces(self, ids):
        """(face, element) for the boundary of a sub-mesh"""
        out = []
        for f in self.dgfaces:
            ins = [x for x in f.el if x in ids]
            if len(ins) == 1:
                out.append((f, ins[0]))
            elif len(ins) == 2 and f.attr is not None:
                out.append((f, ins[0]))
        return sorted(out, key=lambda x: x[0].attr is None)

    def view(self, f, e):
        """the face as the boundary of one of its elements"""
        k = '%s_of_%d' % (f.name, e)
        if k not in self.views:
            self.views[k] = Face(k, (e, None), f.attr)
            self.dgfaces_all = list(self.views.values())
        return self.views[k]

    def face_named(self, ip, o):
        n = o.f.get('#face')
        for f in self.views.values():
            if n is string(f.name):
                return f
        return RunModel.face_named(self, ip, o)

    def models(self):
        m = RunModel.models(self)
        self.binary_models(m)
        base = m['construct']
        cut0 = m[SUB + '::CreateFromDomain']

        def const(t):
            return lambda ip, e, *r: t

        def index(ip, e, k=0):
            i = ip.term(ip.eval(e['args'][k]))
            if i.op != 'num':
                raise AnalysisError('index of a mesh entity not resolved in %s' % e.get('name'))
            return int(val(i))

        def cut(ip, e, *r):
            o = cut0(ip, e, *r)
            ids = [j for j, _ in self.els(ip, o)]
            fs = self.open_faces(ids)
            new = max(self.bdr) + 1
            self.cuts.append(ids)
            bd = vec([num(f.attr if f.attr is not None else new) for f, _ in fs])
            return Obj(o.cls, o.base, dict(o.f, **{'#bd': bd, 'bdr_attributes': self.attrs(ip, bd)}))
        m[SUB + '::CreateFromDomain'] = cut

        def child(ip, lv):
            o = ip.read(lv)
            return o if isinstance(o, Obj) and '#bd' in o.f else None

        def faces(ip, o):
            return self.open_faces([j for j, _ in self.els(ip, o)])

        def over(name, f):
            for c in MESHES:
                old = m.get(c + '::' + name)

                def g(ip, e, lv, w, old=old):
                    o = child(ip, lv)
                    if o is None:
                        return old(ip, e, lv, w) if old else ip.external_call(e, lv, w)
                    return f(ip, e, lv, o)
                m[c + '::' + name] = g
        over('GetNBE', lambda ip, e, lv, o: num(len(faces(ip, o))))
        over('GetBdrAttribute', lambda ip, e, lv, o: ip.getc(o.f['#bd'], ('i', num(index(ip, e)))))

        def setbd(ip, e, lv, o):
            ip.write(lv.ext(('f', '#bd')).ext(('i', num(index(ip, e)))), ip.eval(e['args'][1]))
        over('SetBdrAttribute', setbd)

        def final(ip, e, lv, o):
            ip.write(lv.ext(('f', 'bdr_attributes')), self.attrs(ip, o.f['#bd']))
        for k in ('FinalizeMesh', 'Finalize', 'SetAttributes'):
            over(k, final)
        over('Dimension', lambda ip, e, lv, o: num(self.dim))
        over('SpaceDimension', lambda ip, e, lv, o: num(self.dim))
        over('GetFaceToBdrElMap', lambda ip, e, lv, o: vec([num(i) for i in range(len(faces(ip, o)))]))

        def bft(ip, e, lv, o):
            f, el = faces(ip, o)[index(ip, e)]
            if len([x for x in f.el if x in [j for j, _ in self.els(ip, o)]]) == 2:
                return NULL
            v = self.view(f, el)
            ids = [j for j, _ in self.els(ip, o)]
            face = cell(ip, Obj('mfem::ElementTransformation', sym('face_%s' % v.name, None), {'#face': string(v.name)}))
            return Ptr(cell(ip, Obj('mfem::FaceElementTransformations', sym('ft_%s' % v.name, None), {'Elem1No': num(ids.index(el)), 'Elem2No': num(-1), '#face': string(v.name), 'Face': Ptr(face)})))
        over('GetBdrFaceTransformations', bft)

        def save(ip, e, lv, w):
            o = ip.read(lv)
            self.saved.append((ip.abs_pc(), self.text(ip, ip.term(ip.eval(e['args'][0]))), [j for j, _ in self.els(ip, o)] if isinstance(o, Obj) and '#els' in o.f else None, o.f.get('#bd')))
        for c in MESHES:
            m[c + '::Save'] = save
            m[c + '::SetCurvature'] = const(None)

        def fmap(ip, e, w=None):
            def arg(k):
                a = ip.lval_or_val(e['args'][k])
                return ip.read(a) if isinstance(a, LV) else a
            # entry k: face of the parent the k-th face of the child comes from
            tagged = [f.name for f in self.bfaces]
            return vec([num(tagged.index(f.name) if f.name in tagged else 100 + i) for i, (f, _) in enumerate(faces(ip, arg(1)))])
        m['mfem::SubMeshUtils::BuildFaceMap'] = fmap

        def cons(ip, e, T):
            T0 = T.replace('const ', '')
            if T0 == 'mfem::TransferMap':
                a = []
                for x in e['args'][:2]:
                    v = ip.lval_or_val(x)
                    a.append(ip.read(v) if isinstance(v, LV) else v)
                if len(a) == 1:
                    return a[0]
                n = [int(val(ip.size_of(v))) for v in a]
                ids = [c for c in self.cuts if len(c) * self.nd == n[1]]
                if n[0] != self.ne * self.nd or not ids or any(i != ids[0] for i in ids):
                    raise AnalysisError('transfer between spaces not understood')
                return Obj(T0, None, {'#ids': vec([num(i) for i in ids[0]])})
            return base(ip, e, T)
        m['construct'] = cons

        def transfer(ip, e, lv, w):
            o = ip.read(lv)
            ids = [int(val(o.f['#ids'].e[num(i)])) for i in range(int(val(o.f['#ids'].size)))]
            a = ip.lval_or_val(e['args'][0])
            src = ip.read(a) if isinstance(a, LV) else a
            dst = ip.lval(e['args'][1])
            if int(val(ip.size_of(src))) != self.ne * self.nd or int(val(ip.size_of(ip.read(dst)))) != len(ids) * self.nd:
                raise AnalysisError('transfer between spaces of other sizes')
            for k, j in enumerate(ids):
                for i in range(self.nd):
                    ip.write(dst.ext(('i', num(k * self.nd + i))), ip.term(ip.getc(src, ('i', num(j * self.nd + i)))))
        m['mfem::TransferMap::Transfer'] = transfer

        def geom(ip, e, lv, w):
            o = ip.read(lv)
            n = len(self.fverts[int(val(o.f['#f']))]) if isinstance(o, Obj) and '#f' in o.f else 0
            return num({1: 0, 2: 1, 3: 2, 4: 3}[n])
        m['mfem::Element::GetGeometryType'] = geom
        m['mfem::Element::GetType'] = geom
        tr0 = m['mfem::ElementTransformation::Transform']

        def transform(ip, e, lv, w):
            o = ip.read(lv)
            a = ip.lval_or_val(e['args'][0])
            pt = ip.read(a) if isinstance(a, LV) else a
            if isinstance(o, Obj) and '#face' in o.f and isinstance(pt, Obj) and '#q' in pt.f and '#s' not in pt.f:
                ip.write(ip.lval(e['args'][1]), vec(self.qpos(self.face_named(ip, o), int(val(pt.f['#q'])))))
                return
            return tr0(ip, e, lv, w)
        for c in ('mfem::ElementTransformation', 'mfem::IsoparametricTransformation', 'mfem::FaceElementTransformations'):
            m[c + '::Transform'] = transform
        return m

    def attrs(self, ip, bd):
        return vec([num(x) for x in sorted({int(val(self.plain(ip.term(bd.e[k])))) for k in bd.e})])

    @staticmethod
    def plain(t):
        return num(t.args[1]) if t.op == 'enumc' else t


def quads():
    """a row of quadrilaterals; tag 5 on two faces, tag 6 on one, in either direction and order"""
    fs = [Face('a', (0, 1), 5), Face('b', (3, 2), 5), Face('c', (3, 4), 6), Face('m', (1, 2)), Face('n', (4, 5)), Face('v', (0, None), 1), Face('w', (5, None), 2), Face('y', (4, None), 7)]
    verts = [(x, y) for x in range(7) for y in range(2)]
    elems = [(2 * i, 2 * i + 2, 2 * i + 3, 2 * i + 1) for i in range(6)]
    return (fs, verts, elems, [(2, 3), (6, 7), (9, 8), (0, 1), (12, 13), (11, 9)]), {'a': 0, 'b': 2, 'c': 4, 'y': 4}


def bricks():
    fs = [Face('a', (0, 1), 5), Face('b', (3, 2), 5), Face('c', (3, 4), 6), Face('m', (1, 2)), Face('n', (4, 5)), Face('v', (0, None), 1), Face('w', (5, None), 2), Face('y', (4, None), 7)]
    verts = [(x, y, z) for x in range(7) for y in range(2) for z in range(2)]
    elems = [tuple(4 * i + k for k in (0, 4, 6, 2, 1, 5, 7, 3)) for i in range(6)]

    def fv(i, flip):
        a = (4 * i, 4 * i + 2, 4 * i + 3, 4 * i + 1)
        return tuple(reversed(a)) if flip else a
    # the normal of (y, z) points to +x: the element behind it is the one to the left
    return (fs, verts, elems, [fv(1, False), fv(3, False), fv(4, True), fv(0, True), fv(6, False), (17, 21, 23, 19)]), {'a': 0, 'b': 2, 'c': 4, 'y': 4}


def recordings(ctx):
    p = ctx.prog(UNITS)
    ctx.rule('cadence', 'a surface is recorded at the start, after every so many steps and at the final time, and at no other time')
    ctx.rule('elements', 'the recorded elements are the ones on the near side of the tagged faces, and the recorded faces exactly the tagged ones')
    ctx.rule('content', 'the six fields of the recorded elements at that time, in the documented order')
    ctx.rule('geometry', 'positions, outward unit normals and surface weights of the quadrature points of the tagged faces')
    ctx.rule('file', 'the recording of every process is written where post-processing looks for it')
    ctx.rule('refused', 'surfaces on tags the mesh does not have, or in one dimension, are refused')
    wr = where([f for f in p.fn.values() if f['name'] == 'updateProbes' and f.get('body') is not None][0])
    sets = [('s56', [5, 6], (2, 0)), ('s5', [5], (1, 3)), ('s6', [6], (3, 0)), ('s567', [5, 6, 7], (1, 1))]
    for geo, dim in ((quads, 2), (bricks, 3)):
        g, near = geo()
        for ratio, rank in ((Fraction(0), 0), (Fraction(9, 2), 0), (Fraction(4), 1)) if dim == 2 else ((Fraction(5, 2), 0),):
            use(SYMDT)

            def probes(r):
                out = {'nearFieldProbes': [], 'rcsSurfaceProbes': []}
                for T, k in (('maxwell::NearFieldProbe', 'nearFieldProbes'), ('maxwell::RCSSurfaceProbe', 'rcsSurfaceProbes')):
                    for n, tags, (st, sv) in sets:
                        o = r.ip.default_value(T, None)
                        kw = dict(name=string(n), tags=vec([num(t) for t in tags]), expSteps=num(st), saves=num(sv))
                        for x in kw:
                            if x not in o.f:
                                raise AnalysisError('%s has no member %s' % (T, x))
                        out[k].append(Obj(o.cls, o.base, dict(o.f, **kw)))
                return out
            r = Run(ctx, p, ratio, dim=dim, probes=probes, init=0, rank=rank, size=2 if rank else 1, nd=2, geo=g, cls=SurfaceModel)
            dg, ip = r.dg, r.ip
            ctx.hold('refused', r.thr is FALSE, wr, '%dD: recording refused: %s' % (dim, show(r.thr)[:200]))
            r.call('run')
            base = 'Exports/%s/case' % ('mpi-2' if rank else 'single-core')
            for n, tags, (st, sv) in sets:
                ids = sorted({near[f.name] for f in dg.bfaces if f.name in near and f.attr in tags})
                want = due(r, st, sv)
                what = '%dD, run of %s steps, surface %s (every %d steps, %d saves)' % (dim, ratio, tags, st, sv)
                nd = len(ids) * dg.nd

                def fields(c):
                    stt = r.state(c)
                    return [[stt[k * r.n + e * dg.nd + i] for e in ids for i in range(dg.nd)] for k in range(6)]
                # ---------------------------------------------- binary recording
                root = '%s/RCSSurface/%s/rank%d/' % (base, n, rank)
                path = root + 'surface_data.bin'
                fs = [(f, near[f.name]) for f in dg.bfaces if f.name in near and f.attr in tags]
                if ctx.hold('file', path in dg.files and path not in dg.nodir, wr, '%s: no file %s (files: %s)' % (what, path, sorted(dg.files)[:4])):
                    d = dg.files[path]
                    nqp = len(fs) * dg.nq
                    sizes = [4] * 5 + [8] * (nqp * (dim + 4)) + [8] * (len(want) * (1 + 6 * nd))
                    ctx.hold('elements', len(d) >= 5 and d[1][1] is num(nd), wr, '%s: %s unknowns per field recorded, %d belong to the near side' % (what, show(d[1][1]) if len(d) > 1 else '?', nd))
                    ctx.hold('elements', len(d) >= 5 and d[3][1] is num(nqp), wr, '%s: %s quadrature points recorded, the tagged faces have %d' % (what, show(d[3][1]) if len(d) > 3 else '?', nqp))
                    ctx.hold('geometry', len(d) >= 5 and d[0][1] is num(dim), wr, '%s: dimension' % what)
                    basis = ip.term(ip.getc(ip.read(r.opts), ('f', 'basis_type'))) if 'basis_type' in ip.read(r.opts).f else None
                    if ctx.hold('cadence', [s for s, _ in d] == sizes, wr, '%s: the recording has %d entries, %d snapshots of %d need %d' % (what, len(d), len(want), 1 + 6 * nd, len(sizes))):
                        v = [x for _, x in d]
                        o = 5
                        exp = []
                        vf = [dg.view(f, e) for f, e in fs]
                        for f in vf:
                            for q in range(dg.nq):
                                exp += dg.qpos(f, q)
                        for f in vf:
                            for q in range(dg.nq):
                                exp += [div(dg.normal(f, c, q), dg.W(f, q)) if c < dim else ZERO for c in range(3)]
                        for f in vf:
                            for q in range(dg.nq):
                                exp.append(mul(dg.wq(f, q), dg.W(f, q)))
                        for i, x in enumerate(exp):
                            ctx.equal('geometry', v[o + i], x, wr, what='%s: geometry entry %d' % (what, i))
                        o += len(exp)
                        for c, t in want:
                            ctx.equal('cadence', v[o], mul(num(t), S.DT), wr, what='%s: time of the snapshot after %d steps' % (what, c))
                            o += 1
                            for k, fl in enumerate(fields(c)):
                                for i, x in enumerate(fl):
                                    ctx.equal('content', v[o], x, wr, what='%s: unknown %d of %s%s after %d steps' % (what, i, COMP[k][0], 'xyz'[COMP[k][1]], c))
                                    o += 1
                ms = [s for s in dg.saved if s[1] == root + 'mesh']
                if ctx.hold('file', len(ms) >= 1 and ms[-1][0] is TRUE, wr, '%s: mesh of the surface not stored' % what):
                    ctx.hold('elements', ms[-1][2] == ids, wr, '%s: the stored mesh has elements %s, the near side %s' % (what, ms[-1][2], ids))
                    bd = [int(val(dg.plain(ip.term(ms[-1][3].e[num(i)])))) for i in range(int(val(ms[-1][3].size)))] if ms[-1][3] is not None else []
                    of = [f.name for f, e in dg.open_faces(ids)]
                    ctx.hold('elements', [x for x, b in zip(of, bd) if b == 201] == [f.name for f, _ in fs], wr, '%s: faces %s of the stored mesh are marked as the surface' % (what, [x for x, b in zip(of, bd) if b == 201]))
                # ------------------------------------------ near-field collection
                got = [s for s in dg.saves if s[2] is string(n)]
                ctx.hold('cadence', [s[4] for s in got] == [num(c) for c, _ in want] and all(s[0] is TRUE for s in got), wr, '%s: near field saved at cycles %s where %s are due' % (what, [show(s[4]) for s in got], [c for c, _ in want]))
                pre = '%s/NearToFarFieldProbes/%s/rank%d/' % (base, n, rank)
                for s, (c, t) in zip(got, want):
                    ctx.hold('file', s[3].op == 'str' and s[3].args[0].rstrip('/') + '/' == pre, wr, '%s: near field saved in %s' % (what, show(s[3])))
                    ctx.equal('cadence', s[5], mul(num(t), S.DT), wr, what='%s: time of the near field of cycle %d' % (what, c))
                    names = [F + 'xyz'[k] + '.gf' for F, k in COMP]
                    ctx.hold('content', sorted(s[6]) == sorted(names), wr, '%s: near-field files %s' % (what, sorted(s[6])))
                    for nm, fl in zip(names, fields(c)):
                        v = s[6].get(nm, [])
                        ctx.hold('elements', len(v) == nd, wr, '%s: %d unknowns of %s saved, %d belong to the near side' % (what, len(v), nm, nd))
                        for i, (a, b) in enumerate(zip(v, fl)):
                            ctx.equal('content', a, b, wr, what='%s: unknown %d of %s at cycle %d' % (what, i, nm, c))
                    tf = pre + '%s_%s/time.txt' % (n, padded(c))
                    vs = values(lines(dg.files[tf])[0]) if dg.files.get(tf) else None
                    if ctx.hold('file', vs is not None and len(vs) == 1, wr, '%s: no time stored with the near field of cycle %d' % (what, c)):
                        ctx.equal('cadence', vs[0], mul(num(t), S.DT), wr, what='%s: time stored with the near field of cycle %d' % (what, c))
            ctx.hold('content', not dg.torn, wr, '%dD: %s' % (dim, dg.torn[:3]))
            for pc, pth, k in dg.gone:
                ctx.bad('file', wr, '%dD: %s is removed' % (dim, pth))
    # ------------------------------------------------------------- refusals
    for dim, g, tags, ok in ((2, quads()[0], [8], False), (2, quads()[0], [5, 0], False), (2, quads()[0], [5, -3], False), (2, quads()[0], [5, 8], False), (2, quads()[0], [3], False), (2, quads()[0], [7], True), (1, None, [1], False)):
        for T, k in (('maxwell::NearFieldProbe', 'nearFieldProbes'), ('maxwell::RCSSurfaceProbe', 'rcsSurfaceProbes')):
            def probes(r):
                o = r.ip.default_value(T, None)
                return {k: [Obj(o.cls, o.base, dict(o.f, name=string('n'), tags=vec([num(t) for t in tags]), expSteps=ONE, saves=ZERO))]}
            r = Run(ctx, p, Fraction(1), dim=dim, probes=probes, init=0, nd=2, geo=g, cls=SurfaceModel)
            ctx.hold('refused', r.thr is (FALSE if ok else TRUE), wr, '%dD, %s on tags %s: %s' % (dim, k, tags, 'refused' if ok else 'not refused'))


CHECKS = {'P23': recordings}
