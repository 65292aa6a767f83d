"""Thin layered panels: the slab solved behind each pair of face nodes and its coupling to the mesh."""
from fw import *
from terms import *
from checks.common import *
from checks.dg import *
from checks.dg import DG, Face, OPUNITS, PFES, law, make, unknowns, JUMP
from checks.tfsf import GeoDG, FES, SUB
from checks.model import bdr_enum, const_map, material
from checks.sources import ft_enum

FIELDS = 'maxwell::Fields<mfem::ParFiniteElementSpace, mfem::ParGridFunction>'
GLOBAL = 'maxwell::GlobalEvolution'
OPAQUE = {'maxwell::Solver', 'maxwell::Model', 'maxwell::buildConnectivityForInteriorBdrFace', 'maxwell::computePerDofFaceNormals'} | {'maxwell::Solver::' + k for k in ('getFields', 'getConstField', 'setTime', 'setTimeStep', 'setFinalTime', 'getTime', 'getTimeStep', 'getEvolTDO', 'getSolverOptions', 'step')}


class SheetModel(GeoDG):
    """the solver of a slab is a black box: it holds a vector of unknowns, and a step
    turns them into unknown functions of the old ones, the time and the step"""

    def __init__(self, *a, threads=1, on=None, normals=None, **kw):
        """on: nodes of the two elements that lie on a panel, pairwise, {face: (nodes, nodes)};
        normals: outward normals of the first element there, {face: [vector]}"""
        GeoDG.__init__(self, *a, **kw)
        self.on, self.normals = on or {}, normals or {}
        self.slabs = []         # what each kind of slab solver was built from
        self.built = []         # kinds, in order of construction
        self.time = sym('time')
        self.threads, self.turn, self.stride = threads, 0, 1

    def shape(self, f, side, i=0, q=0):
        if self.dim == 1:
            x = f.x if side == 0 else 1 - f.x
            return ONE if i == x * (self.nd - 1) else ZERO
        if f.name in self.on and i not in self.on[f.name][side]:
            return ZERO
        return GeoDG.shape(self, f, side, i, q)

    def face_of(self, ip, lv):
        o = ip.read(lv)
        a = [ip.term(ip.getc(o, ('f', k))) for k in ('Elem1No', 'Elem2No')]
        for f in self.dgfaces:
            if [num(-1 if x is None else x) for x in f.el] == a:
                return f
        raise AnalysisError('face of a panel not resolved')

    def slabsize(self, order, mesh):
        return 6 * (order + 1) * len(mesh['e'])

    def step(self, k, x, t, dt):
        """unknowns of slab kind k after one step: linear and free of sources"""
        if all(v is ZERO for v in x):
            return list(x)
        s = mk('app', ('slabstep%d' % k,) + tuple(x) + (t, dt), 'n')
        return [mk('app', ('entry', s, num(i)), 'n') for i in range(len(x))]

    def models(self):
        m = GeoDG.models(self)
        base = m['construct']

        def const(t):
            return lambda ip, e, *r: t

        def n_(ip, a):
            return ip.term(ip.eval(a))

        def int_(ip, a, what):
            t = n_(ip, a)
            if t.op != 'num':
                raise AnalysisError('%s of a slab mesh not resolved' % what)
            return int(val(t))

        def seq(xs):
            return Arr('seq', None, num(len(xs)), {num(i): x for i, x in enumerate(xs)}, None)

        def cons(ip, e, T):
            T = T.replace('const ', '')
            if T == 'mfem::Mesh' and len(e['args']) >= 4:
                return Obj(T, sym('slabmesh', None), {'#slab': ONE, '#v': seq([]), '#e': seq([]), '#b': seq([]), '#dim': n_(ip, e['args'][0]), 'bdr_attributes': seq([]), 'attributes': seq([])})
            if T in ('mfem::Mesh', 'mfem::ParMesh') and e['args']:
                a = ip.lval_or_val(e['args'][0])
                v = ip.read(a) if isinstance(a, LV) else a
                if isinstance(v, Obj) and '#slab' in v.f:
                    return v
            if T == 'maxwell::Model' and len(e['args']) >= 3:
                a = [ip.lval_or_val(x) for x in e['args'][:3]]
                a = [ip.read(x) if isinstance(x, LV) else x for x in a]
                if isinstance(a[0], Obj) and '#slab' in a[0].f:
                    return Obj(T, sym('slabmodel', None), {'#mesh': a[0], '#mat': a[1], '#bdr': a[2], '#comm': n_(ip, e['args'][4]) if len(e['args']) > 4 else None})
            if T == 'maxwell::Solver':
                a = [ip.lval_or_val(x) for x in e['args']]
                a = [ip.read(x) if isinstance(x, LV) else x for x in a]
                return self.newslab(ip, a)
            return base(ip, e, T)
        m['construct'] = cons

        # ------------------------------------------------------- slab mesh
        def push(ip, lv, k, o):
            a = ip.read(lv).f[k]
            n = int(val(a.size))
            ip.write(lv.ext(('f', k)), Arr('seq', None, num(n + 1), dict(a.e, **{}) | {num(n): o}, None))
            return num(n)

        def slab(ip, lv):
            o = ip.read(lv)
            return isinstance(o, Obj) and '#slab' in o.f

        def over(name, f):
            for c in ('mfem::Mesh', 'mfem::ParMesh'):
                old = m.get(c + '::' + name)

                def g(ip, e, lv, w, old=old):
                    if not slab(ip, lv):
                        return old(ip, e, lv, w) if old else ip.external_call(e, lv, w)
                    return f(ip, e, lv)
                m[c + '::' + name] = g
        over('AddVertex', lambda ip, e, lv: push(ip, lv, '#v', n_(ip, e['args'][0])))
        over('AddSegment', lambda ip, e, lv: push(ip, lv, '#e', Obj('el', None, {'v': seq([n_(ip, a) for a in e['args'][:2]]), 'attr': n_(ip, e['args'][2]) if len(e['args']) > 2 else ONE})))
        over('AddBdrPoint', lambda ip, e, lv: push(ip, lv, '#b', Obj('bd', None, {'v': n_(ip, e['args'][0]), 'attr': n_(ip, e['args'][1]) if len(e['args']) > 1 else ONE})))
        over('SetAttribute', lambda ip, e, lv: ip.write(lv.ext(('f', '#e')).ext(('i', num(int_(ip, e['args'][0], 'element')))).ext(('f', 'attr')), n_(ip, e['args'][1])))
        for k in ('FinalizeMesh', 'Finalize', 'FinalizeTopology', 'SetAttributes'):
            over(k, lambda ip, e, lv: None)
        over('GeneratePartitioning', lambda ip, e, lv: Ptr(cell(ip, vec([ZERO] * len(ip.read(lv).f['#e'].e))), ZERO))
        over('GetNE', lambda ip, e, lv: ip.read(lv).f['#e'].size)
        over('Dimension', lambda ip, e, lv: ip.read(lv).f['#dim'])

        # ----------------------------------------------------- slab solver
        S_ = 'maxwell::Solver::'

        def fields(ip, e, lv, w):
            return lv.ext(('f', '#fields'))

        def comp(ip, e, lv, w, at=None):
            lv = lv if at is None else lv.ext(('f', at))
            o = ip.read(lv)
            if not isinstance(o, Obj) or '#x' not in o.f:
                return NotImplemented
            a = o.f['#x']
            F, d = [n_(ip, x) for x in e['args']]
            F, d = [int(val(num(x.args[1]) if x.op == 'enumc' else x)) for x in (F, d)]
            n = int(val(a.size)) // 6
            return cell(ip, vec([ip.term(ip.getc(a, ('i', num((3 * F + d) * n + i)))) for i in range(n)]))
        m[S_ + 'getFields'] = fields
        m[S_ + 'getConstField'] = lambda ip, e, lv, w: comp(ip, e, lv, w, '#fields')

        def alldofs(ip, e, lv, w):
            o = ip.read(lv)
            return lv.ext(('f', '#x')) if isinstance(o, Obj) and '#x' in o.f else NotImplemented
        m[FIELDS + '::allDOFs'] = alldofs
        m['maxwell::Fields::allDOFs'] = alldofs

        def put(k):
            def f(ip, e, lv, w):
                ip.write(lv.ext(('f', k)), n_(ip, e['args'][0]))
            return f
        m[S_ + 'setTime'] = put('#t')
        m[S_ + 'setTimeStep'] = put('#dt')
        m[S_ + 'setFinalTime'] = put('#tf')
        m[S_ + 'getTime'] = lambda ip, e, lv, w: ip.read(lv).f['#t']
        m[S_ + 'getTimeStep'] = lambda ip, e, lv, w: ip.read(lv).f['#dt']
        m[S_ + 'getEvolTDO'] = lambda ip, e, lv, w: Ptr(lv.ext(('f', '#op')))
        m[S_ + 'getSolverOptions'] = lambda ip, e, lv, w: lv.ext(('f', '#opts'))

        def optime(ip, e, lv, w):
            o = ip.read(lv)
            if isinstance(o, Obj) and '#clock' in o.f:
                ip.write(lv.ext(('f', '#clock')), n_(ip, e['args'][0]))
                return None
            return NotImplemented
        m['mfem::TimeDependentOperator::SetTime'] = optime
        m['mfem::TimeDependentOperator::GetTime'] = lambda ip, e, lv, w: self.time

        def step(ip, e, lv, w):
            o = ip.read(lv)
            x = o.f['#fields'].f['#x']
            n = int(val(x.size))
            old = [ip.term(ip.getc(x, ('i', num(i)))) for i in range(n)]
            fin = ip.term(ip.getc(o.f['#opts'], ('f', 'final_time')))
            dt = f_minmax('min', o.f['#dt'], sub(fin, o.f['#t']))
            ip.write(lv.ext(('f', '#fields')).ext(('f', '#x')), vec(self.step(int(val(o.f['#k'])), old, o.f['#t'], dt)))
            ip.write(lv.ext(('f', '#t')), add(o.f['#t'], dt))
            self.agree.append((o.f['#t'], o.f['#op'].f['#clock']))
        m[S_ + 'step'] = step
        self.agree = []

        # ----------------------------------------------------------- threads
        m['omp_get_num_threads'] = m['omp_get_max_threads'] = const(num(self.threads))

        def tid(ip, e, *r):
            self.turn += 1
            return num(self.turn * self.stride % self.threads)
        m['omp_get_thread_num'] = tid
        m['mfem::Mpi::WorldRank'] = const(ZERO)

        # ------------------------------------------------------- main mesh
        for c in ('mfem::Mesh', 'mfem::ParMesh'):
            def fet(ip, e, lv, w):
                i = int_(ip, e['args'][0], 'face')
                f = self.bfaces[i]
                return Ptr(cell(ip, Obj('mfem::FaceElementTransformations', sym('ft', None), {'ElementNo': num(i), 'Elem1No': num(f.el[0]), 'Elem2No': num(-1 if f.el[1] is None else f.el[1])})))
            m[c + '::GetFaceElementTransformations'] = fet

        def pairs(ip, e, w=False):
            f = self.face_of(ip, ip.lval(e['args'][0]))
            a = [vec([num(f.el[s] * self.nd + i) for i in self.on[f.name][s]]) for s in (0, 1)]
            return Obj('std::pair', None, {'first': a[0], 'second': a[1]})
        m['maxwell::buildConnectivityForInteriorBdrFace'] = pairs

        def normals(ip, e, w=False):
            f = self.face_of(ip, ip.lval(e['args'][0]))
            a = ip.eval(e['args'][2])
            n = int(val(ip.size_of(a)))
            out = []
            for k in range(n):
                i = ip.term(ip.getc(a, ('i', num(k))))
                if i.op != 'num' or int(val(i)) not in self.on[f.name][0]:
                    raise AnalysisError('node whose normal is asked for not on the face')
                out.append(vec([num(x) for x in self.normals[f.name][self.on[f.name][0].index(int(val(i)))]]))
            return seq(out)
        m['maxwell::computePerDofFaceNormals'] = normals
        return m

    def newslab(self, ip, a):
        mod, opts = a[0], a[3]
        if not isinstance(mod, Obj) or '#mesh' not in mod.f:
            raise AnalysisError('model of a slab not understood: %r' % (mod,))
        mesh = self.describe(ip, mod.f['#mesh'])
        order = ip.term(ip.getc(ip.getc(opts, ('f', 'evolution')), ('f', 'order')))
        if order.op != 'num':
            raise AnalysisError('order of a slab not resolved')
        n = self.slabsize(int(val(order)), mesh)
        d = {'mesh': mesh, 'mat': mod.f['#mat'], 'bdr': mod.f['#bdr'], 'comm': mod.f['#comm'], 'opts': opts, 'order': int(val(order)), 'probes': a[1], 'sources': a[2]}
        key = None
        for k, s in enumerate(self.slabs):
            if s['mesh'] == mesh and s['order'] == d['order'] and ip.term(s['mat']) is ip.term(d['mat']) and ip.term(s['bdr']) is ip.term(d['bdr']):
                key = k
        if key is None:
            key = len(self.slabs)
            self.slabs.append(d)
        self.built.append(key)
        return Obj('maxwell::Solver', sym('slabsolver', None), {'#k': num(key), '#fields': Obj(FIELDS, sym('slabfields', None), {'#x': vec([ZERO] * n)}), '#t': ZERO, '#dt': sym('default step'),
                                                               '#op': Obj('mfem::TimeDependentOperator', sym('slabop', None), {'#clock': ZERO}), '#opts': opts})

    def describe(self, ip, o):
        g = lambda a: [a.e[num(i)] for i in range(int(val(a.size)))]
        return {'v': [ip.term(x) for x in g(o.f['#v'])], 'e': [tuple(ip.term(y) for y in g(x.f['v'])) + (ip.term(x.f['attr']),) for x in g(o.f['#e'])],
                'b': [(ip.term(x.f['v']), ip.term(x.f['attr'])) for x in g(o.f['#b'])]}


# --------------------------------------------------------------------- set-up

def layer(ip, width, segments, order, eps, mu, sigma, nskin=ZERO):
    mat = ip.read(construct(ip, 'maxwell::Material', [eps, mu, sigma]))
    lv = construct(ip, 'maxwell::SGBCLayer', [mat, width])
    for k, v in (('num_of_segments', num(segments)), ('order', num(order)), ('n_skin_depths', nskin)):
        ip.write(lv.ext(('f', k)), v)
    return ip.read(lv)


def props(ip, p, tags, layers, ends=(None, None)):
    E = bdr_enum(p)
    lv = cell(ip, ip.default_value('maxwell::SGBCProperties', None))
    ip.write(lv.ext(('f', 'geom_tags')), vec([num(t) for t in tags]))
    ip.write(lv.ext(('f', 'layers')), Arr('seq', None, num(len(layers)), {num(i): l for i, l in enumerate(layers)}, None))
    for k, w in zip(('first', 'second'), ends):
        q = lv.ext(('f', 'sgbc_bdr_info')).ext(('f', k))
        ip.write(q, ip.default_value('maxwell::SGBCBoundaryInfo', None))
        if w is not None:
            q = lv.ext(('f', 'sgbc_bdr_info')).ext(('f', k))
            ip.write(q.ext(('f', 'bdrCond')), E[w])
            ip.write(q.ext(('f', 'isOn')), TRUE)
    return ip.read(lv)


class Panel:
    """a global operator on a mesh with panels"""

    def __init__(self, ctx, p, dg, bc, panels):
        """panels: [(tags, layers(ip), ends)]"""
        self.p, self.dg, self.ctx = p, dg, ctx
        ip = self.ip = ctx.interp(p, models=dg.models(), opaque=OPAQUE)
        ip.views = True
        self.alpha = sym('alpha')
        model, fes, src, opts, mats = make(p, ip, dg, bc, self.alpha)
        self.model, self.fes = model, fes
        E = bdr_enum(p)
        pr = [props(ip, p, t, l(ip), e) for t, l, e in panels]
        ip.call_function(method(p, 'maxwell::Model', 'setSGBCProperties', 1), [cell(ip, Arr('seq', None, num(len(pr)), {num(i): x for i, x in enumerate(pr)}, None))], model)
        tags = {t for ts, _, _ in panels for t in ts}
        mark = vec([ONE if t + 1 in tags else ZERO for t in range(max(dg.bdr))])
        g = ip.call_function(method(p, 'maxwell::Model', 'getSGBCToMarker', 0), [], model, retlv=True)
        ip.write(g, Arr('map', None, ONE, {E['SGBC']: mark}, None))
        self.op = construct(ip, GLOBAL, [fes, model, src, opts])
        self.n = dg.ne * dg.nd
        self.fl = construct(ip, FIELDS, [fes])

    def fields(self, x):
        ip = self.ip
        f = ip.read(self.fl)
        for k, n in (('e_', 0), ('h_', 3)):
            for d in range(3):
                lv = ip.call_function([g for g in self.p.fn.values() if g.get('cls') == f.cls and g['name'] == 'get' and len(g['params']) == 2 and g.get('body') is not None][0],
                                      [cell(ip, ft_enum(self.p)['EH'[n // 3]]), cell(ip, num(d))], self.fl, retlv=True)
                for i in range(self.n):
                    ip.write(lv.ext(('i', num(i))), x[(n + d) * self.n + i])
        return self.fl

    def commit(self, t, dt, x):
        self.ip.call_function(method(self.p, GLOBAL, 'commitSGBCCheckpoint', 3), [cell(self.ip, t), cell(self.ip, dt), self.fields(x)], self.op)

    def finish(self, x):
        self.ip.call_function(method(self.p, GLOBAL, 'finalizeSGBCStep', 1), [self.fields(x)], self.op)

    def mult(self, t, x):
        ip = self.ip
        self.dg.time = t
        out = cell(ip, vec([sym('old%d' % i) for i in range(6 * self.n)]))
        inn = cell(ip, vec(x))
        f = virt(self.p, GLOBAL, 'Mult', 2)
        ip.call_function(f, [inn, out], self.op)
        o = ip.read(out)
        return [ip.term(ip.getc(o, ('i', num(i)))) for i in range(6 * self.n)], where(f)


class Slab:
    """what a slab must do, node pair by node pair"""

    def __init__(self, dg, k, order, elements, ghosts, rec, ends=(None, None)):
        self.dg, self.k, self.order, self.ghosts, self.rec, self.ends = dg, k, order, ghosts, rec, ends
        self.n = (order + 1) * elements
        self.g = ghosts * (order + 1)

    def rest(self):
        return [ZERO] * (6 * self.n)

    def count(self, dt):
        return -(-dt // self.rec) if dt > self.rec else 1

    def advance(self, x, t, dt, ghost):
        """ghost(i, n): the six fields on the left and on the right during sub-step i of n"""
        n = self.count(dt)
        h = Fraction(dt) / n
        for i in range(n):
            l, r = ghost(i, n)
            x = list(x)
            for c in range(6):
                for j in range(self.g):
                    x[c * self.n + j] = l[c]
                    if r is not None:
                        x[(c + 1) * self.n - 1 - j] = r[c]
            x = self.dg.step(self.k, x, add(t, num(i * h)), num(h))
        return x

    def left(self, x):
        return [x[c * self.n + self.g] for c in range(6)]

    def right(self, x):
        return [x[(c + 1) * self.n - 1 - self.g] for c in range(6)]


def turn(R, v):
    """six components from the mesh to the frame of the face"""
    return [add(add(mul(R[i][0], v[F + 0]), mul(R[i][1], v[F + 1])), mul(R[i][2], v[F + 2])) for F in (0, 3) for i in range(3)]


def back(R, v):
    return turn([[R[j][i] for j in range(3)] for i in range(3)], v)


class Pair:
    """two face nodes with a slab between them"""

    def __init__(self, slab, face, nodes, R, sides=(0, 1)):
        self.slab, self.face, self.nodes, self.R, self.sides = slab, face, nodes, R, sides
        self.x = slab.rest()        # committed state

    def values(self, u, n):
        at = lambda k: [u[c * n + self.nodes[k]] for c in range(6)]
        return turn(self.R, at(0)), turn(self.R, at(1))

    def seen(self, u, n, s, state):
        """fields the element on one side sees behind the face"""
        end = self.slab.ends[s]
        own = [u[c * n + self.nodes[s]] for c in range(6)]
        if end is None:
            return back(self.R, (self.slab.left if s == 0 else self.slab.right)(state))
        if end == 'SMA':
            return own
        return [neg(v) if (c < 3) == (end == 'PEC') else v for c, v in enumerate(own)]


def neg(t):
    return mul(num(-1), t)


class History:
    """drives the coupled operator and its oracle side by side"""

    def __init__(self, ctx, P, pairs, bc, name):
        self.ctx, self.P, self.pairs, self.bc, self.name = ctx, P, pairs, bc, name
        self.calls = 0
        dg = P.dg
        self.mat = lambda k: [sym('%s%d' % (k, t)) for t in dg.tags]

    def state(self, quiet=False):
        """arbitrary unknowns, not negligible next to the panel"""
        dg = self.P.dg
        self.calls += 1
        x, _ = unknowns(dg, 'c%d_' % self.calls)
        for j, pr in enumerate(self.pairs):
            for s in (0, 1):
                if quiet:
                    for c in range(6):
                        x[c * self.P.n + pr.nodes[s]] = ZERO
            if not quiet:
                x[(self.calls + j) % 6 * self.P.n + pr.nodes[(self.calls + j) % 2]] = ONE
        return x

    def weak(self, c):
        """one weak component on one side of every panel, nothing else there"""
        x = self.state(quiet=True)
        for pr in self.pairs:
            x[c % 6 * self.P.n + pr.nodes[c // 6]] = num(Fraction(1, 100000))
        return x

    def expect(self, x, states):
        dg, n = self.P.dg, self.P.n

        def u(F, d, i):
            b = (3 * F + d) * n
            return x[b + i] if i < n else dg.nbrval(i - n, x[b:b + n])
        seen = {}
        for pr, st in zip(self.pairs, states):
            for s in (0, 1):
                side = pr.sides[s]      # side of the face the node belongs to
                el, j = divmod(pr.nodes[1 - s], dg.nd)
                seen[pr.face, side, j] = pr.seen(x, n, s, st)
        faces = {pr.face for pr in self.pairs}

        def shift(f, s, F, d, q):
            if f.name not in faces:
                return ZERO
            t = ZERO
            for j in range(dg.nd):
                sh = dg.shape(f, 1 - s, j, q)
                if sh is ZERO:
                    continue
                t = add(t, mul(sh, sub(u(F, d, f.el[1 - s] * dg.nd + j), seen[f.name, s, j][3 * F + d])))
            return t
        return law(dg, self.P.alpha, self.mat('eps'), self.mat('mu'), self.mat('sig'), {k: v for k, v in self.bc.items() if k not in faces}, u, shift=shift)

    def commit(self, t, dt, x):
        self.t, self.dt, self.x0 = t, dt, x
        self.P.commit(t, num(dt), x)

    def stage(self, tau, x, rule, what):
        ctx, P = self.ctx, self.P
        got, w = P.mult(add(self.t, num(tau)), x)
        st = []
        for pr in self.pairs:
            v = pr.values(x, P.n)
            st.append(pr.slab.advance(pr.x, self.t, tau, lambda i, n: v) if tau else pr.x)
        want = self.expect(x, st)
        for (F, d, k), t in sorted(want.items()):
            ctx.equal(rule, got[(3 * F + d) * P.n + k], t, w + ' ' + self.name, what='%s: %s%s of unknown %d' % (what, 'EH'[F], 'xyz'[d], k))

    def finish(self, x):
        self.P.finish(x)
        for pr in self.pairs:
            a, b = pr.values(self.x0, self.P.n), pr.values(x, self.P.n)

            def ghost(i, n):
                al = num(Fraction(i + 1, n))
                return [[add(mul(sub(ONE, al), p), mul(al, q)) for p, q in zip(a[s], b[s])] for s in (0, 1)]
            pr.x = pr.slab.advance(pr.x, self.t, self.dt, ghost)


# ---------------------------------------------------------------------- rules

R24 = {
    'slab geometry': 'the slab mesh is a chain of segments: every layer cut into its number of equal segments, in order, between equally many cells on both sides',
    'slab padding': 'at least three cells, and more than the order, of the mean segment length pad each side',
    'slab materials': 'every segment carries the permittivity, permeability and conductivity of its layer, padding cells are vacuum',
    'slab terminations': 'the outer ends absorb, and the face between padding and first / last layer carries the requested condition when one is switched on, none otherwise',
    'slab solver': 'the slab is solved by its own process alone, with the highest order of its layers, full upwinding, a third-order implicit scheme, no sources and no probes, as a sub-solver',
    'slab step': 'the recommended step is the smallest, over the layers, of half the time a wave needs to cross a segment, times the square of the skin depths (at most fifty) for layers thicker than three skin depths',
    'slab copies': 'a copy for another thread describes the same slab, the variant between conductors closes both faces with perfect electric conductors',
}
IMPLICIT = ('SDIRK33',)
WRAP = 'maxwell::SGBCWrapper'


def at(ip, a, i):
    return ip.term(ip.getc(a, ('i', num(i))))


def map_items(ip, m, what):
    if not isinstance(m, Arr) or m.kind != 'map':
        raise AnalysisError('%s of a slab not resolved' % what)
    return m.e


def look(m, k):
    for q, v in m.items():
        if q is k:
            return v
    return None


def check_slab(ctx, p):
    for r, t in R24.items():
        ctx.rule(r, t)
    E = bdr_enum(p)
    F = Fraction
    cases = [
        ('one layer', [(F(3), 3, 1, 4, 1, F(1, 5), 0)], (None, None)),
        ('one thick layer', [(F(2), 2, 2, 9, 4, F(7), 4)], ('PEC', None)),
        ('opaque layer', [(F(2), 4, 1, 1, 1, F(70), 9)], (None, 'PMC')),
        ('three skin depths', [(F(2), 4, 3, 1, 1, F(70), 3)], ('PMC', 'PEC')),
        ('two layers', [(F(3, 2), 3, 1, 4, 1, F(1, 5), 0), (F(5), 2, 4, 1, 9, ZERO, 0)], (None, None)),
        ('two layers, fine second', [(F(9), 3, 2, 1, 1, ZERO, 0), (F(1, 4), 2, 1, 1, 1, F(4), 1)], ('SMA', None)),
        ('three layers', [(F(1), 1, 1, 1, 4, F(1, 2), 5), (F(1), 2, 5, 4, 4, F(3), 2), (F(7), 5, 2, 16, 1, ZERO, 0)], ('PEC', 'PMC')),
        ('four layers', [(F(2 + i, 3), 1 + i, 4 - i, 1, (i + 1) ** 2, F(i), 4 * i) for i in range(4)], (None, 'SMA')),
    ]
    for name, ls, ends in cases:
        dg = SheetModel(1, [Face('a', (0, None), 1, x=0), Face('b', (0, None), 2)], [(0,), (1,)], [(0, 1)], [(0,), (1,)], nd=2, nq=1, order=1, tags=[1])
        ip = ctx.interp(p, models=dg.models(), opaque=OPAQUE)
        ip.views = True
        L = [layer(ip, num(w), n, o, num(e), num(m), s if isinstance(s, Term) else num(s), num(nd)) for w, n, o, e, m, s, nd in ls]
        pr = cell(ip, props(ip, p, [3], L, ends))
        f = method(p, WRAP, 'buildSGBCWrapper', 1)
        w = where(f) + ' ' + name
        lv = ip.deref(ip.call_function(f, [pr], None))
        ctx.anchor(len(dg.built) == 1, 'a slab builds %d solvers' % len(dg.built))
        one_slab(ctx, ip, p, dg.slabs[dg.built[0]], ls, ends, w)
        # step
        step = ip.term(ip.call_function(method(p, WRAP, 'getRecommendedDt', 0), [], lv))
        want = min(F(wd) / n * root(e * m) / 2 * (min(F(nd) ** 2, 50) if nd > 3 else 1) for wd, n, o, e, m, s, nd in ls)
        ctx.equal('slab step', step, num(want), w, what='recommended step')
        # copies
        ip.call_function(method(p, WRAP, 'clone', 0), [], lv)
        ctx.anchor(len(dg.built) == 2, 'a copy of a slab builds %d solvers' % (len(dg.built) - 1))
        one_slab(ctx, ip, p, dg.slabs[dg.built[1]], ls, ends, w + ' copy', 'slab copies')
        g = p.find(WRAP + '::buildSGBCWrapperWithPEC')
        if g:
            ip.call_function(g[0], [pr], None)
            one_slab(ctx, ip, p, dg.slabs[dg.built[2]], ls, ('PEC', 'PEC'), w + ' between conductors', 'slab copies')
    ctx.sites += len(cases)


def root(x):
    r = int(round(float(x) ** 0.5))
    assert r * r == x
    return r


def one_slab(ctx, ip, p, d, ls, ends, w, rule=None):
    E = bdr_enum(p)
    R = lambda r: rule or r
    m = d['mesh']
    ne, total = len(m['e']), sum(l[1] for l in ls)
    order = max(l[2] for l in ls)

    def need(r, ok, what, got=None, want=None):
        if ok:
            ctx.ok(R(r), w)
        else:
            ctx.bad(R(r), w, {'what': what, 'computed': str(got), 'required': str(want)})
    nums = all(v.op == 'num' for v in m['v'])
    if not nums:
        for v in m['v']:
            ctx.unclear(v, w)
        raise AnalysisError('%s: vertices of the slab mesh not resolved' % w)
    V = [val(v) for v in m['v']]
    chain = [(val(a), val(b)) for a, b, _ in m['e']]
    need('slab geometry', chain == [(i, i + 1) for i in range(ne)] and len(V) == ne + 1, 'segments form a chain', chain, None)
    g, odd = divmod(ne - total, 2)
    need('slab geometry', not odd and g > 0, 'number of cells', ne, '%d in the layers and as many on either side' % total)
    if odd or g <= 0:
        return
    need('slab padding', g >= max(3, order + 1), 'padding cells', g, max(3, order + 1))
    h = [b - a for a, b in zip(V, V[1:])]
    width = sum((l[0] for l in ls), Fraction(0))
    need('slab padding', all(x == width / total for x in h[:g] + h[-g:]), 'length of padding cells', h, width / total)
    want = [Fraction(l[0]) / l[1] for l in ls for _ in range(l[1])]
    need('slab geometry', h[g:-g] == want, 'lengths of the segments of the layers', h[g:-g], want)
    # materials
    gm = d['mat']
    gm = ip.getc(gm, ('f', 'gt2m'))
    mats = map_items(ip, gm, 'materials')
    own = [None] * g + [l for l in ls for _ in range(l[1])] + [None] * g
    for i, l in enumerate(own):
        mt = look(mats, m['e'][i][2])
        if mt is None:
            ctx.bad(R('slab materials'), w, {'what': 'cell %d has no material' % i})
            continue
        c = cell(ip, mt)
        for k, v in (('getPermittivity', 1 if l is None else l[3]), ('getPermeability', 1 if l is None else l[4]), ('getConductivity', 0 if l is None else l[5])):
            t = ip.term(ip.call_function(method(p, 'maxwell::Material', k, 0), [], c))
            ctx.equal(R('slab materials'), t, v if isinstance(v, Term) else num(v), w, what='%s of cell %d' % (k[3:].lower(), i))
    # conditions
    b = d['bdr']
    ext = map_items(ip, ip.getc(b, ('f', 'gt2b')), 'outer conditions')
    inn = map_items(ip, ip.getc(b, ('f', 'gt2ib')), 'inner conditions')
    at_v = {}
    for v, a in m['b']:
        at_v.setdefault(int(val(v)), []).append(a)
    for v, c in ((0, 'SMA'), (ne, 'SMA')):
        got = [look(ext, a) for a in at_v.get(v, [])]
        need('slab terminations', got == [E[c]], 'condition at the %s end' % ('left' if v == 0 else 'right'), got, c)
    for v, c in ((g, ends[0]), (ne - g, ends[1])):
        got = [x for x in (look(inn, a) for a in at_v.get(v, [])) if x is not None]
        need('slab terminations', got == ([] if c is None else [E[c]]), 'condition at the %s face' % ('left' if v == g else 'right'), got, c)
    for v in at_v:
        if v not in (0, g, ne - g, ne):
            got = [x for a in at_v[v] for x in (look(inn, a), look(ext, a)) if x is not None]
            need('slab terminations', not got, 'condition at node %d' % v, got, 'none')
    # solver
    o = d['opts']
    ev = ip.getc(o, ('f', 'evolution'))
    ode = {n: v for n, v in p.enum.get('maxwell::ode_type', [])}
    rd = lambda c, k: ip.term(ip.getc(c, ('f', k)))
    need('slab solver', d['order'] == order, 'order', d['order'], order)
    ctx.equal(R('slab solver'), rd(ev, 'alpha'), ONE, w, what='upwinding')
    t = rd(o, 'ode_type')
    t = num(t.args[1]) if t.op == 'enumc' else t
    need('slab solver', t.op == 'num' and val(t) in [v for n, v in ode.items() if n in IMPLICIT], 'time integration', t, 'a third-order implicit scheme')
    for c in (o, ev):
        need('slab solver', as_bool(rd(c, 'is_sgbc_solver')) is TRUE, 'flag of a sub-solver', rd(c, 'is_sgbc_solver'), True)
    cm = d['comm']
    need('slab solver', cm is not None and 'SELF' in show(cm), 'communicator', cm, 'the process itself')
    need('slab solver', empty(ip, d['sources']) and empty(ip, d['probes']), 'sources and probes', (d['sources'], d['probes']), 'none')


def empty(ip, v):
    if isinstance(v, Arr):
        return v.size is ZERO
    if isinstance(v, Obj):
        return all(empty(ip, x) for k, x in v.f.items() if isinstance(x, (Arr, Obj)))
    return True


# ------------------------------------------------------------------- coupling

R25 = {
    'stage': 'at every stage the rate is the one of the mesh with the face of the panel closed on each side by the fields at that end of the slab, advanced from the state at the start of the step by sub-steps no longer than recommended with the fields of the stage at its ends',
    'start of step': 'a stage at the start of a step sees the slab as the last step left it',
    'after a step': 'a finished step leaves the slab advanced over the whole step from its state at the start, with end fields running linearly from those at the start to those at the finish',
    'terminated side': 'a side closed by a condition sees its own fields mirrored by that condition instead of the slab',
    'weak fields': 'fields of any single component on either side, however weak down to 1e-5, drive the slab',
    'at rest': 'a slab at rest with vanishing fields on both sides acts as vanishing fields behind the face',
    'face frame': 'the frame of a face node is a right-handed orthonormal one whose first axis is the normal of the face, from its left (2D) or back (3D) side to the other',
    'clocks': 'the operator of the slab works at the time its solver is advanced from',
}
ROT = 'maxwell::buildFaceRotationMatrix'


def frame(ctx, ip, p, n, dim, w):
    f = p.find(ROT)
    ctx.anchor(bool(f), 'frame of a face node not found')
    r = cell(ip, vec([sym('r%d' % i) for i in range(9)]))
    ip.call_function(f[0], [cell(ip, vec([num(x) for x in n])), cell(ip, num(dim)), Ptr(r, ZERO)])
    a = ip.read(r)
    R = [[ip.term(ip.getc(a, ('i', num(3 * i + j)))) for j in range(3)] for i in range(3)]
    q = sum(Fraction(x) ** 2 for x in n)
    l = power(num(q), Fraction(-1, 2))
    w = where(f[0]) + ' ' + w
    for j in range(3):
        ctx.equal('face frame', R[0][j], mul(num(n[j]), l) if j < len(n) else ZERO, w, what='first axis of the frame for %s' % (n,))
    for i in range(3):
        for k in range(i, 3):
            d = ZERO
            for j in range(3):
                d = add(d, mul(R[i][j], R[k][j]))
            ctx.equal('face frame', d, ONE if i == k else ZERO, w, what='product of axes %d and %d of the frame for %s' % (i, k, n))
    det = ZERO
    for i, s in ((0, 1), (1, 1), (2, 1)):
        a, b = (i + 1) % 3, (i + 2) % 3
        det = add(det, mul(R[0][i], sub(mul(R[1][a], R[2][b]), mul(R[1][b], R[2][a]))))
    ctx.equal('face frame', det, ONE, w, what='orientation of the frame for %s' % (n,))
    return R


I3 = [[ONE if i == j else ZERO for j in range(3)] for i in range(3)]


def line(ne, panels, order, **kw):
    """elements in a row, panels between some: {left element: tag}"""
    faces = [Face('l', (0, None), 1, x=0)]
    fv = [(0,)]
    for e in range(ne - 1):
        faces.append(Face('p%d' % e, (e, e + 1), panels[e]) if e in panels else Face('i%d' % e, (e, e + 1)))
        if e in panels:
            fv.append((e + 1,))
    faces.append(Face('r', (ne - 1, None), 2))
    fv.append((ne,))
    return SheetModel(1, faces, [(i,) for i in range(ne + 1)], [(i, i + 1) for i in range(ne)], fv, nd=order + 1, nq=1, order=order, tags=[1 + i % 2 for i in range(ne)], **kw)


def scenarios(thorough):
    """name, mesh, conditions, panels [(tags, [layer data], ends)], left side of each panel"""
    F = Fraction
    A = (F(2), 2, 1, 4, 1, F(1, 5), 0)      # recommended step 1
    B = (F(3), 1, 1, 1, 1, F(3), 0)         # 3/2
    C = (F(1), 2, 2, 9, 1, ZERO, 0)         # 3/4
    D = (F(1, 2), 2, 1, 1, 4, F(9), 4)      # 1/4 * 16
    out = [
        ('1D, one panel', lambda: line(3, {0: 3}, 1), [([3], [A], (None, None))], {}),
        ('1D, second order, two panels, two threads', lambda: line(5, {0: 3, 2: 4}, 2, threads=2), [([3], [A], (None, None)), ([4], [B, C], (None, None))], {}),
        ('1D, three panels of one kind, three threads', lambda: line(7, {0: 5, 2: 3, 4: 5}, 1, threads=3), [([3, 5], [C, A], (None, None))], {}),
        ('1D, conductor behind the left face', lambda: line(3, {1: 4}, 1), [([4], [D], ('PEC', None))], {}),
        ('1D, magnetic conductor behind the right face', lambda: line(3, {1: 4}, 1), [([4], [A], (None, 'PMC'))], {}),
        ('1D, both faces closed', lambda: line(4, {0: 3, 2: 5}, 1, threads=2), [([3], [A], ('PMC', 'PEC')), ([5], [B], ('SMA', 'SMA'))], {}),
    ]

    def quads(flip, threads=1):
        fs = [Face('p', (0, 1), 5), Face('m', (1, 2)), Face('q', (3, 2), 6), Face('v', (0, None), 1), Face('w', (3, None), 2)]
        verts = [(x, y) for x in range(5) for y in range(2)]
        elems = [(2 * i, 2 * i + 2, 2 * i + 3, 2 * i + 1) for i in range(4)]
        d = lambda t, k: (t[1], t[0]) if flip[k] else t
        return SheetModel(2, fs, verts, elems, [d((2, 3), 0), d((6, 7), 1), (0, 1), (8, 9)], nd=2, nq=1, order=1, tags=[1, 2, 1, 3], threads=threads,
                          on={'p': ([1], [0]), 'q': ([0, 1], [1, 0])}, normals={'p': [(3, 4)], 'q': [(-5, 12), (-4, -3)]})
    # going up, the left side is the one of the element with smaller x
    out += [
        ('2D, faces pointing up', lambda: quads((0, 0)), [([5], [A], (None, None)), ([6], [B], (None, None))], {'p': 0, 'q': 1}),
        ('2D, first face pointing down', lambda: quads((1, 0), 2), [([5], [B], (None, 'PEC')), ([6], [A], (None, None))], {'p': 1, 'q': 1}),
        ('2D, second face pointing down', lambda: quads((0, 1)), [([5, 6], [A], (None, None))], {'p': 0, 'q': 0}),
    ]

    def bricks(flip, threads=1):
        fs = [Face('p', (0, 1), 5), Face('m', (1, 2)), Face('q', (3, 2), 6), Face('v', (0, None), 1), Face('w', (3, None), 2)]
        verts = [(x, y, z) for x in range(5) for y in range(2) for z in range(2)]
        elems = [tuple(4 * i + k for k in (0, 4, 6, 2, 1, 5, 7, 3)) for i in range(4)]

        def fv(i, fl):
            a = (4 * i, 4 * i + 2, 4 * i + 3, 4 * i + 1)
            return tuple(reversed(a)) if fl else a
        return SheetModel(3, fs, verts, elems, [fv(1, flip[0]), fv(3, flip[1]), fv(0, 1), fv(4, 0)], nd=2, nq=1, order=1, tags=[1, 2, 1, 3], threads=threads,
                          on={'p': ([0], [1]), 'q': ([1, 0], [0, 1])}, normals={'p': [(3, 0, 4)], 'q': [(0, 5, 12), (-1, 0, 0)]})
    out += [
        ('3D, faces pointing forward', lambda: bricks((0, 0)), [([5], [A], (None, None)), ([6], [B], (None, None))], {'p': 0, 'q': 1}),
        ('3D, faces pointing backward', lambda: bricks((1, 1), 3), [([6], [B], ('PMC', None)), ([5], [A], (None, None))], {'p': 1, 'q': 0}),
    ]
    return out


def start(ctx, p, name, mesh, panels, left):
    dg = mesh()
    bc = {f.name: 'SMA' if f.el[1] is None else 'SGBC' for f in dg.bfaces}
    P = Panel(ctx, p, dg, bc, [(t, (lambda ls: lambda ip: [layer(ip, num(w), n, o, num(e), num(m), s if isinstance(s, Term) else num(s), num(nd)) for w, n, o, e, m, s, nd in ls])(ls), e) for t, ls, e in panels])
    pairs = []
    for f in dg.bfaces:
        for tags, ls, ends in panels:
            if f.el[1] is None or f.attr not in tags:
                continue
            total, order = sum(l[1] for l in ls), max(l[2] for l in ls)
            rec = min(Fraction(l[0]) / l[1] * root(l[3] * l[4]) / 2 * (min(Fraction(l[6]) ** 2, 50) if l[6] > 3 else 1) for l in ls)
            k = kind(ctx, dg, P.ip, ls, order, total)
            ne = len(dg.slabs[k]['mesh']['e'])
            slab = Slab(dg, k, order, ne, (ne - total) // 2, rec, ends)
            if dg.dim == 1:
                e = f.el[0]
                pairs.append(Pair(slab, f.name, (e * dg.nd + dg.nd - 1, (e + 1) * dg.nd), I3))
                continue
            s = left[f.name]
            for a, b, n in zip(*dg.on[f.name], dg.normals[f.name]):
                nodes = (f.el[0] * dg.nd + a, f.el[1] * dg.nd + b)
                R = frame(ctx, P.ip, p, [x if s == 0 else -x for x in n], dg.dim, name)
                pairs.append(Pair(slab, f.name, nodes if s == 0 else nodes[::-1], R, (s, 1 - s)))
    return P, History(ctx, P, pairs, bc, name)


def kind(ctx, dg, ip, ls, order, total):
    """which of the slabs that were built has these layers"""
    for k, d in enumerate(dg.slabs):
        h = [val(b) - val(a) for a, b in zip(d['mesh']['v'], d['mesh']['v'][1:])]
        g = (len(h) - total) // 2
        if d['order'] == order and g > 0 and h[g:len(h) - g] == [Fraction(l[0]) / l[1] for l in ls for _ in range(l[1])]:
            return k
    ctx.bad('stage', 'maxwell::GlobalEvolution', {'what': 'no slab with the layers of a panel is solved', 'required': str(ls)})
    raise AnalysisError('slab of a panel not found')


def coupling(ctx, p):
    for r, t in R25.items():
        ctx.rule(r, t)
    F = Fraction
    t0 = sym('t0')

    def history(name, mesh, panels, left):
        P, H = start(ctx, p, name, mesh, panels, left)
        term = 'terminated side' if any(e != (None, None) for _, _, e in panels) else 'stage'
        x = H.state()
        H.commit(t0, F(5, 2), x)
        H.stage(0, x, 'start of step', 'first stage')
        H.stage(F(1, 2), H.state(), term, 'stage within one sub-step')
        H.stage(F(5, 2), H.state(), term, 'stage over several sub-steps')
        H.stage(F(5, 4), H.state(), 'stage', 'another stage of the same step')
        x = H.state()
        H.finish(x)
        t1 = add(t0, num(F(5, 2)))
        H.commit(t1, F(1, 2), x)
        H.stage(0, x, 'after a step', 'first stage of the second step')
        H.stage(F(1, 2), H.state(), term, 'stage of the second step')
        x = H.state()
        H.finish(x)
        H.commit(add(t1, num(F(1, 2))), F(7, 3), x)
        H.stage(0, x, 'after a step', 'first stage of the third step')
        for t, c in P.dg.agree:
            ctx.equal('clocks', c, t, where(method(p, WRAP, 'solve', 2)) + ' ' + name, what='time of the operator of the slab')
        ctx.sites += len(H.pairs)

    # weak fields, component by component
    def weak(c, name, mesh, panels, left):
        P, H = start(ctx, p, name, mesh, panels, left)
        x = H.weak(c)
        H.commit(t0, F(1, 2), H.state(quiet=True))
        H.stage(F(1, 4), H.state(quiet=True), 'at rest', 'no fields at the panel')
        H.stage(F(1, 2), x, 'weak fields', 'weak component %d' % c)
        H.finish(x)
        H.commit(add(t0, HALF), F(1, 2), x)
        H.stage(0, x, 'weak fields', 'weak component %d, next step' % c)
    sc = scenarios(ctx.tier == 'thorough')
    parts = [lambda s=s: history(*s) for s in sorted(sc, key=lambda s: 'thread' not in s[0])]
    for s in [s for s in scenarios(False) if s[0] in ('1D, one panel', '1D, three panels of one kind, three threads')]:
        for c in range(12):
            parts.append(lambda s=s, c=c: weak(c, *s))
    ctx.parallel(parts)


def panels(which):
    def check(ctx):
        p = ctx.prog(OPUNITS)
        which(ctx, p)
    return check


CHECKS = {'P24': panels(check_slab), 'P25': panels(coupling)}
