"""Solver runs: stepping to the final time, time integrators, probe sampling."""
from fw import *
from terms import *
from checks.common import *
from checks.dg import Face, OPUNITS, PFES
from checks.tfsf import GeoDG, FES, waves
from checks.sources import ft_enum
from checks.model import bdr_enum, const_map, material

ODES = {'RK4': 'RK4Solver', 'BackwardEuler': 'BackwardEulerSolver', 'Trapezoidal': 'TrapezoidalRuleSolver', 'ImplicitMidpoint': 'ImplicitMidpointSolver',
        'SDIRK33': 'SDIRK33Solver', 'SDIRK23': 'SDIRK23Solver', 'SDIRK34': 'SDIRK34Solver'}


OPERATORS = {'Global': 'maxwell::GlobalEvolution', 'Maxwell': 'maxwell::MaxwellEvolution', 'Hesthaven': 'maxwell::HesthavenEvolution'}
OPAQUE = set(OPERATORS.values()) | {OPERATORS['Global'] + '::' + k for k in ('hasSGBC', 'commitSGBCCheckpoint', 'finalizeSGBCStep')}


class Endless(AnalysisError):
    def __init__(self):
        AnalysisError.__init__(self, 'a run takes far more steps than its length allows')


class RunModel(GeoDG):
    """a mesh, files on disk and a time integrator that records its steps"""

    def __init__(self, *a, **kw):
        self.points = kw.pop('points', {})
        self.coords = kw.pop('coords', 1)
        self.limit = kw.pop('limit', 60)
        self.rank = kw.pop('rank', 0)
        self.size = kw.pop('size', 1)
        self.sgbc = kw.pop('sgbc', False)
        GeoDG.__init__(self, *a, **kw)
        self.steps = []
        self.inits = []
        self.saves = []
        self.fs = []
        self.subids = []
        self.outside = []
        self.files, self.opened, self.dirs, self.nodir, self.made, self.gone = {}, [], set(), [], [], []
        self.feslv = None

    def models(self):
        m = GeoDG.models(self)
        base = m['construct']

        def const(t):
            return lambda ip, e, *r: t

        def cons(ip, e, T):
            T = T.replace('const ', '')
            if T in ('mfem::DG_FECollection', 'mfem::L2_FECollection'):
                a = [ip.eval(x) for x in e['args']]
                if len(a) == 1:
                    return a[0]
                return Obj(T, sym('fec', None), {'#order': ip.term(a[0]), '#dim': ip.term(a[1]), '#basis': ip.term(a[2]) if len(a) > 2 else sym('default basis')})
            if T.startswith('mfem::') and T[6:] in ODES.values():
                return Obj(T, sym('ode', None), {'#arg%d' % i: ip.term(ip.eval(a)) for i, a in enumerate(e['args'])})
            if T in ('mfem::ParaViewDataCollection', 'mfem::DataCollection'):
                a = [ip.eval(x) for x in e['args']]
                if len(a) == 1:
                    return a[0]
                return Obj(T, sym('dc', None), {'#name': ip.term(a[0]), '#mesh': a[1], '#fields': Arr('map', None, ZERO, {}, None), '#cycle': num(-1), '#time': sym('no time'), '#prefix': string('')})
            if T in (FES, PFES) and len(e['args']) >= 2:
                r = base(ip, e, T)
                if isinstance(r, Obj) and '#mesh' in r.f:
                    return Obj(r.cls, r.base, dict(r.f, **{'#fec': ip.eval(e['args'][1])}))
                return r
            return base(ip, e, T)
        m['construct'] = cons
        for c in (PFES, FES):
            m[c + '::FEColl'] = lambda ip, e, lv, w: ip.getc(ip.read(lv), ('f', '#fec'))
        for c in ('mfem::FiniteElementCollection', 'mfem::DG_FECollection', 'mfem::L2_FECollection'):
            m[c + '::GetOrder'] = lambda ip, e, lv, w: ip.getc(ip.read(lv), ('f', '#order'))
            m[c + '::GetBasisType'] = lambda ip, e, lv, w: ip.getc(ip.read(lv), ('f', '#basis'))

        # ------------------------------------------------------ time integrator
        def init(ip, e, lv, w):
            a = ip.lval_or_val(e['args'][0])
            o = ip.read(a) if isinstance(a, LV) else a
            s = ip.read(lv)
            self.inits.append((ip.abs_pc(), s, o))
        m['mfem::ODESolver::Init'] = init

        def step(ip, e, lv, w):
            x, t, dt = [ip.lval(a) for a in e['args']]
            n = int(val(ip.size_of(ip.read(x))))
            t0 = ip.term(ip.read(t))
            d = ip.term(ip.read(dt))
            old = [ip.term(ip.getc(ip.read(x), ('i', num(i)))) for i in range(n)]
            k = sum(1 for r in self.steps if r[1] == 'step')
            self.steps.append((ip.abs_pc(), 'step', ip.read(lv), t0, d, old))
            if len(self.steps) > 3 * self.limit:
                raise Endless()
            for i in range(n):
                ip.write(x.ext(('i', num(i))), sym('y%d_%d' % (k, i)))
            ip.write(t, add(t0, d))
        m['mfem::ODESolver::Step'] = step
        for c in list(ODES.values()):
            m['mfem::%s::Step' % c] = step
            m['mfem::%s::Init' % c] = init

        def settime(ip, e, lv, w):
            ip.write(lv.ext(('f', '#time')), ip.eval(e['args'][0]))
        for c in ['mfem::TimeDependentOperator'] + sorted(OPERATORS.values()):
            m[c + '::SetTime'] = settime
        G = OPERATORS['Global'] + '::'

        def note(k):
            def f(ip, e, lv, w):
                a = [ip.lval_or_val(x) for x in e['args']]
                self.steps.append((ip.abs_pc(), k, [ip.term(ip.read(x) if isinstance(x, LV) else x) for x in a[:-1]], a[-1]))
            return f
        m[G + 'hasSGBC'] = const(TRUE if self.sgbc else FALSE)
        m[G + 'commitSGBCCheckpoint'] = note('checkpoint')
        m[G + 'finalizeSGBCStep'] = note('finalise')

        # ---------------------------------------------------------------- probes
        def find(ip, e, lv, w):
            a = ip.eval(e['args'][0])
            p = ip.term(ip.getc(a, ('i', mk('app', ('ij', ZERO, ZERO), 'n'))))
            rows = int(val(a.size.args[1]))
            rest = [ip.term(ip.getc(a, ('i', mk('app', ('ij', num(c), ZERO), 'n')))) for c in range(1, rows)]
            if p not in self.points:
                raise AnalysisError('position looked up in the mesh not understood: %s' % show(p))
            el = self.points[p]
            if rest != [sym('%s_%d' % (p.args[0], c)) for c in range(1, self.coords)]:
                p = mk('app', ('another position', p) + tuple(rest), 'n')
            ip.write(ip.lval(e['args'][1]), vec([num(el)]))
            ip.write(ip.lval(e['args'][2]), vec([Obj('mfem::IntegrationPoint', sym('at', None), {'#at': p})]))
            return ONE if el >= 0 else ZERO
        for c in ('mfem::Mesh', 'mfem::ParMesh'):
            m[c + '::FindPoints'] = find

        def value(ip, e, lv, w):
            g = ip.read(lv)
            el = ip.term(ip.eval(e['args'][0]))
            a = ip.lval_or_val(e['args'][1])
            pt = ip.read(a) if isinstance(a, LV) else a
            if el.op != 'num' or not isinstance(pt, Obj) or '#at' not in pt.f:
                raise AnalysisError('value of a field at a point not understood')
            if not 0 <= int(val(el)) < self.ne:
                self.outside.append(int(val(el)))
                return sym('outside the mesh')
            return self.at(pt.f['#at'], int(val(el)), lambda j: ip.term(ip.getc(g, ('i', num(j)))))
        for c in ('mfem::GridFunction', 'mfem::ParGridFunction'):
            m[c + '::GetValue'] = value
            def save(ip, e, lv, w):
                a = ip.lval(e['args'][0])
                s = ip.read(a)
                n = int(val(ip.size_of(ip.read(lv))))
                self.log(ip, 'grid', s.f['#path'].args[0] if isinstance(s, Obj) and '#path' in s.f and s.f['#path'] is not NULL else ip.term(s), [ip.term(ip.getc(ip.read(lv), ('i', num(i)))) for i in range(n)])
            m[c + '::Save'] = save
            m[c + '::UseDevice'] = const(None)

        # ------------------------------------------------------ data collections
        for c in ('mfem::ParaViewDataCollection', 'mfem::DataCollection'):
            def setter(k):
                def f(ip, e, lv, w):
                    ip.write(lv.ext(('f', k)), ip.eval(e['args'][0]))
                return f

            def getter(k):
                return lambda ip, e, lv, w: ip.getc(ip.read(lv), ('f', k))
            m[c + '::SetCycle'] = setter('#cycle')
            m[c + '::SetTime'] = setter('#time')

            def prefix(ip, e, lv, w):
                t = ip.term(ip.eval(e['args'][0]))
                ip.write(lv.ext(('f', '#prefix')), t if t is string('') or t.op == 'str' and t.args[0].endswith('/') else str_concat(t, string('/')))
            m[c + '::SetPrefixPath'] = prefix
            m[c + '::GetPrefixPath'] = getter('#prefix')
            m[c + '::GetCollectionName'] = getter('#name')
            m[c + '::GetCycle'] = getter('#cycle')
            m[c + '::GetMesh'] = getter('#mesh')
            for k in ('SetHighOrderOutput', 'SetLevelsOfDetail', 'SetDataFormat', 'SetFormat', 'SetPrecision', 'SetCompression', 'SetCompressionLevel'):
                m[c + '::' + k] = const(None)

            def reg(ip, e, lv, w):
                k = ip.term(ip.eval(e['args'][0]))
                ip.write(lv.ext(('f', '#fields')).ext(('i', k)), ip.eval(e['args'][1]))
            m[c + '::RegisterField'] = reg

            def dcsave(ip, e, lv, w):
                o = ip.read(lv)
                fs = {}
                for k, v in o.f['#fields'].e.items():
                    g = ip.read(ip.deref(v))
                    n = int(val(ip.size_of(g)))
                    fs[k.args[0] if k.op == 'str' else k] = [ip.term(ip.getc(g, ('i', num(i)))) for i in range(n)]
                d = str_concat(str_concat(ip.term(o.f['#prefix']), ip.term(o.f['#name'])), string('_'))
                if d.op == 'str' and ip.term(o.f['#cycle']).op == 'num':
                    self.dirs.add(text(ip, str_concat(d, string(padded(int(val(ip.term(o.f['#cycle']))))))))
                self.saves.append((ip.abs_pc(), o.cls, ip.term(o.f['#name']), ip.term(o.f['#prefix']), ip.term(o.f['#cycle']), ip.term(o.f['#time']), fs))
            m[c + '::Save'] = dcsave
        m['mfem::ElementTransformation::Order'] = m['mfem::IsoparametricTransformation::Order'] = const(ONE)

        # ------------------------------------------------------------- processes
        def pad(ip, e, w=None):
            a, b = [ip.term(ip.eval(x)) for x in e['args']]
            if a.op == b.op == 'num':
                return string(str(int(val(a))).zfill(int(val(b))))
            return mk('app', ('padded', a, b), 's')
        m['mfem::to_padded_string'] = pad
        for c in ('mfem::ParMesh', 'mfem::Mesh'):
            for k in ('ExchangeFaceNbrData', 'ExchangeFaceNbrNodes', 'SetCurvature', 'Save', 'Print'):
                m[c + '::' + k] = const(None)
        m['mfem::Mpi::WorldRank'] = const(num(self.rank))
        m['mfem::Mpi::WorldSize'] = const(num(self.size))

        def setrank(ip, e, w=None):
            ip.write(ip.deref(ip.eval(e['args'][1])), num(self.rank))
            return ZERO
        m['MPI_Comm_rank'] = setrank

        def setsize(ip, e, w=None):
            ip.write(ip.deref(ip.eval(e['args'][1])), num(self.size))
            return ZERO
        m['MPI_Comm_size'] = setsize
        m['MPI_Comm_split_type'] = m['MPI_Comm_free'] = const(ZERO)
        m['mfem::Device::Allows'] = const(FALSE)
        m['maxwell::getCurrentMemoryUsage'] = m['maxwell::getPeakMemoryUsage'] = const(sym('memory'))

        # ------------------------------------------------------------------ files
        def join(t):
            if t.op == 'app' and t.args[0] in ('m:string', 'm:c_str', 'm:generic_string') and len(t.args) == 2:
                return join(t.args[1])
            if t.op == 'app' and t.args[0] in ('str/', 'op/'):
                return str_concat(str_concat(join(t.args[1]), string('/')), join(t.args[2]))
            return t

        def text(ip, t):
            t = join(t)
            if t.op != 'str':
                raise AnalysisError('name of a file or directory not resolved: %s' % show(t)[:200])
            s = t.args[0]
            while '//' in s:
                s = s.replace('//', '/')
            return s

        def mode(ip, e, k):
            if len(e['args']) <= k:
                return False
            t = ip.term(ip.eval(e['args'][k]))
            if t.op == 'enumc':
                t = num(t.args[1])
            if t.op != 'num':
                raise AnalysisError('mode a file is opened in not resolved: %s' % show(t))
            return bool(int(val(t)) & 1)

        def fopen(ip, path, md):
            if ip.abs_pc() is not TRUE:
                raise AnalysisError('file %s opened under a condition the analysis cannot resolve: %s' % (path, show(ip.abs_pc())[:300]))
            self.opened.append(path)
            if path not in self.files or not md:
                self.files[path] = []
            if path.rsplit('/', 1)[0].rstrip('/') not in self.dirs:
                self.nodir.append(path)
            return Obj('std::ofstream', sym('file', None), {'#path': string(path)})
        closed = Obj('std::ofstream', sym('file', None), {'#path': NULL})
        base2 = m['construct']

        def cons2(ip, e, T):
            T = T.replace('const ', '')
            if T.startswith('std::basic_ofstream<'):
                if not e['args']:
                    return closed
                v = ip.eval(e['args'][0])
                if isinstance(v, Obj):
                    return v
                return fopen(ip, text(ip, ip.term(v)), mode(ip, e, 1))
            if T == 'std::filesystem::path' and len(e['args']) >= 1:
                return ip.eval(e['args'][0])
            if T in OPAQUE:
                return Obj(T, sym('operator', None), {'#arg%d' % i: ip.eval(a) for i, a in enumerate(e['args'])})
            return base2(ip, e, T)
        m['construct'] = cons2

        def default(ip, t):
            if t.startswith('std::basic_ofstream<'):
                return closed
        m['default'] = default
        F = 'std::basic_ofstream::'

        def reopen(ip, e, lv, w):
            ip.write(lv, fopen(ip, text(ip, ip.term(ip.eval(e['args'][0]))), mode(ip, e, 1)))

        def isopen(ip, e, lv, w):
            o = ip.read(lv)
            if not isinstance(o, Obj) or '#path' not in o.f:
                return ip.external_call(e, lv, w)
            return TRUE if o.f['#path'] is not NULL else FALSE

        def close(ip, e, lv, w):
            ip.write(lv, closed)
        for c in ('std::basic_ofstream', 'std::basic_ofstream<char>', 'std::ofstream', 'std::basic_ofstream<char, std::char_traits<char>>'):
            m[c + '::open'], m[c + '::is_open'], m[c + '::close'] = reopen, isopen, close

        def put(ip, lv, t):
            o = ip.read(lv)
            if not isinstance(o, Obj) or '#path' not in o.f:
                return NotImplemented
            if o.f['#path'] is NULL:
                raise AnalysisError('write to a file that is not open')
            if ip.abs_pc() is not TRUE:
                raise AnalysisError('file written under a condition the analysis cannot resolve')
            self.files[o.f['#path'].args[0]].append(t)
        m['<<'] = put
        fsq = 'std::filesystem::'

        def mkdir(ip, e, w=None):
            p = text(ip, ip.term(ip.eval(e['args'][0]))).rstrip('/')
            self.made.append((ip.abs_pc(), p))
            parts = p.split('/')
            for i in range(1, len(parts) + 1):
                self.dirs.add('/'.join(parts[:i]))
            return TRUE
        m[fsq + 'create_directories'] = m[fsq + 'create_directory'] = mkdir

        def there(ip, e, w=None):
            p = text(ip, ip.term(ip.eval(e['args'][0]))).rstrip('/')
            return as_bool(mk('app', ('exists', string(p)), 'b'))
        m[fsq + 'exists'] = m[fsq + 'is_directory'] = there

        def rmall(ip, e, w=None):
            p = text(ip, ip.term(ip.eval(e['args'][0]))).rstrip('/')
            self.gone.append((ip.abs_pc(), p, len(self.opened)))
            for k in list(self.files):
                if k.startswith(p + '/'):
                    del self.files[k]
            return ONE
        m[fsq + 'remove_all'] = m[fsq + 'remove'] = rmall
        return m

    def at(self, p, el, f):
        t = ZERO
        for j in range(self.nd):
            t = add(t, mul(sym('N_%s_%d' % (show(p), j)), f(el * self.nd + j)))
        return t

    def log(self, ip, *what):
        self.fs.append((ip.abs_pc(),) + what)


SYMDT = DT = mul(num(Fraction(1, 1000)), sym('+dt'))
SMALL = num(Fraction(1, 10 ** 6))


def use(dt):
    global DT
    DT = dt

SDIR = 'Exports/single-core/case'


def times(ratio):
    """start of every step and its length, as multiples of the nominal step"""
    t, out = Fraction(0), []
    while t < ratio:
        d = min(Fraction(1), ratio - t)
        out.append((t, d))
        t += d
    return out


class Run:
    """a solver built by its own constructor on a small line mesh"""

    def __init__(self, ctx, p, ratio, dim=1, opts=None, probes=None, op='Global', points=None, init=2, rank=0, size=1, nd=2, sgbc=False, coords=1, geo=None, cls=None, bc=None):
        faces, verts, elems, fverts = geo or ([Face('a', (0, 1)), Face('b', (1, 2)), Face('v', (0, None), 1), Face('w', (2, None), 2)], [(i,) for i in range(4)], [(i, i + 1) for i in range(3)], [(0,), (3,)])
        self.p, self.ctx, self.ratio, self.init = p, ctx, ratio, init
        dg = self.dg = (cls or RunModel)(dim, faces, verts, elems, fverts, nd=nd, nq=1, points=points or {}, coords=coords, rank=rank, size=size, sgbc=sgbc)
        ip = self.ip = ctx.interp(p, models=dg.models(), opaque=OPAQUE)
        ip.views = True
        E = bdr_enum(p)
        mi = Obj('maxwell::GeomTagToMaterialInfo', None, {'gt2m': const_map({1: ip.read(construct(ip, 'maxwell::Material', [num(2), num(3), num(4)]))}), 'gt2bm': const_map({})})
        bi = Obj('maxwell::GeomTagToBoundaryInfo', None, {'gt2b': const_map({1: E['PEC'], 2: E['SMA']}), 'gt2ib': const_map({})})
        mesh = cell(ip, dg.obj('mfem::ParMesh'))
        model = construct(ip, 'maxwell::Model', [mesh, mi, bi, NULL, sym('comm', None)])
        ip.write(model.ext(('f', 'meshName_')), string('case'))
        o = cell(ip, ip.default_value('maxwell::SolverOptions', None))
        self.final = mul(num(ratio), DT)
        ip.write(o.ext(('f', 'time_step')), DT)
        ip.write(o.ext(('f', 'final_time')), self.final)
        ip.write(o.ext(('f', 'evolution')).ext(('f', 'op')), enumc('maxwell::' + op, enum(p, 'maxwell::EvolutionOperatorType')[op]) if op in OPERATORS else num(77))
        for k, v in (opts or {}).items():
            lv = o
            for part in k.split('.'):
                lv = lv.ext(('f', part))
            ip.write(lv, v)
        self.opts = o
        pr = cell(ip, ip.default_value('maxwell::Probes', None))
        for k, vs in (probes(self) if probes else {}).items():
            ip.write(pr.ext(('f', k)), Arr('seq', None, num(len(vs)), {num(i): v for i, v in enumerate(vs)}, None))
        ip.top_throws = []
        src = waves(ip, p, 0, init)
        self.solver = construct(ip, 'maxwell::Solver', [model, pr, src, o])
        self.n = dg.ne * nd
        self.thr = FALSE
        for pc, T, _ in ip.top_throws:
            self.thr = b_or(self.thr, pc)

    def call(self, name, *args, **kw):
        f = virt(self.p, 'maxwell::Solver', name, len(args))
        try:
            return self.ip.call_function(f, list(args), self.solver, **kw)
        except Endless as e:
            self.ctx.bad(sorted(self.ctx.rules)[0] if 'steps' not in self.ctx.rules else 'steps', where(f), 'run of %s steps: %s' % (self.ratio, e))
            raise

    def state(self, k):
        """all unknowns after k steps: k = 0 is what the initial fields give"""
        dg = self.dg
        if k:
            return [sym('y%d_%d' % (k - 1, i)) for i in range(6 * self.n)]
        out = []
        for F in (0, 1):
            for d in range(3):
                for e in range(dg.ne):
                    for i in range(dg.nd):
                        t = ZERO
                        for k in range(self.init):
                            if k % 2 == F:
                                xs = [sub(dg.pos(e, i, c), sym('c%d_%d' % (k, c))) if c < dg.dim else ZERO for c in range(3)]
                                t = add(t, mul(mk('app', ('init%d' % k,) + tuple(xs), 'n'), sym('p%d_%d' % (k, d))))
                        out.append(t)
        return out

    def current(self):
        ip, out = self.ip, []
        fl = ip.call_function([f for f in self.p.fn.values() if f.get('cls') == 'maxwell::Solver' and f['name'] == 'getFields' and f.get('body') is not None][0], [], self.solver, retlv=True)
        for F in 'EH':
            for d in range(3):
                g = ip.read(ip.call_function(virt(self.p, ip.read(fl).cls, 'get', 2), [ft_enum(self.p)[F], num(d)], fl, retlv=True))
                out += [ip.term(ip.getc(g, ('i', num(i)))) for i in range(self.n)]
        return out


def expect_steps(ctx, r, got, want, w, what):
    """want: list of (start, length) as multiples of the nominal step"""
    ctx.hold('steps', len(got) == len(want) and all(g[0] is TRUE for g in got), w, '%s: %d steps are taken where %d are needed' % (what, len(got), len(want)))
    for (pc, _, ode, t, d, old), (t1, d1) in zip(got, want):
        ctx.equal('steps', t, mul(num(t1), DT), w, what='%s: start of a step' % what)
        ctx.equal('steps', d, mul(num(d1), DT), w, what='%s: length of the step that starts at %s steps' % (what, t1))


def stepping(ctx):
    p = ctx.prog(OPUNITS)
    ctx.rule('steps', 'the integrator is asked for the full step until the rest of the run is shorter, then for exactly the rest, and the clock ends at the final time')
    ctx.rule('state', 'each step starts from the state the previous one left, the first from the initial fields, and the last state is what the solver reports')
    ctx.rule('resume', 'a run continued with a later final time goes on from where it stopped')
    ctx.rule('sheets', 'with thin layers every step is bracketed by taking and by finalising their checkpoint, without them neither happens')
    ctx.assumptions += ['lengths of runs are multiples of the step that include whole numbers, fractions and zero; the step itself is any number of at least 1e-3', 'steps advance the clock by the length they are given']
    w = where(virt(p, 'maxwell::Solver', 'run', 0))
    ratios = [Fraction(0), Fraction(1, 3), Fraction(1), Fraction(5, 2), Fraction(4), Fraction(200001, 100000)]
    if ctx.tier == 'thorough':
        ratios += [Fraction(1, 1000), Fraction(7), Fraction(19, 4), Fraction(3001, 1000)]
    for ratio, dt in [(Fraction(5, 2), SMALL)] + [(x, SYMDT) for x in ratios]:
        use(dt)
        for sgbc in (False, True):
            what = 'run of %s steps' % ratio
            r = Run(ctx, p, ratio, sgbc=sgbc)
            cur = r.current()
            for i, (g, t) in enumerate(zip(cur, r.state(0))):
                ctx.equal('state', g, t, w, what='%s: unknown %d before the first step' % (what, i))
            r.call('run')
            got = [x for x in r.dg.steps if x[1] == 'step']
            want = times(ratio)
            expect_steps(ctx, r, got, want, w, what)
            for k, g in enumerate(got):
                for i, (a, b) in enumerate(zip(g[5], r.state(k))):
                    ctx.equal('state', a, b, w, what='%s: unknown %d at the start of step %d' % (what, i, k))
            for i, (a, b) in enumerate(zip(r.current(), r.state(len(got)))):
                ctx.equal('state', a, b, w, what='%s: unknown %d at the end' % (what, i))
            ctx.equal('steps', r.ip.term(r.call('getTime')), r.final, w, what='%s: time at the end' % what)
            seq = [x[1] for x in r.dg.steps]
            ctx.hold('sheets', seq == (['checkpoint', 'step', 'finalise'] if sgbc else ['step']) * len(want), w, '%s: %s' % (what, seq))
            if sgbc:
                for k, x in enumerate(y for y in r.dg.steps if y[1] == 'checkpoint'):
                    if k < len(want):
                        ctx.equal('sheets', x[2][0], mul(num(want[k][0]), DT), w, what='%s: time of a checkpoint' % what)
                        ctx.equal('sheets', x[2][1], mul(num(want[k][1]), DT), w, what='%s: length a checkpoint is taken for' % what)
                continue
            # go on
            more = ratio + Fraction(3, 2)
            r.call('setFinalTime', mul(num(more), DT))
            k0 = len(got)
            r.call('run')
            got = [x for x in r.dg.steps if x[1] == 'step'][k0:]
            rest = [(ratio + a, b) for a, b in times(Fraction(3, 2))]
            ctx.hold('resume', len(got) == len(rest), w, '%s: %d further steps where %d are needed' % (what, len(got), len(rest)))
            for g, (t1, d1) in zip(got, rest):
                ctx.equal('resume', g[3], mul(num(t1), DT), w, what='%s: start of a further step' % what)
                ctx.equal('resume', g[4], mul(num(d1), DT), w, what='%s: length of a further step' % what)
            for i, (a, b) in enumerate(zip(got[0][5] if got else [], r.state(k0))):
                ctx.equal('resume', a, b, w, what='%s: unknown %d when going on' % (what, i))
            # and with another step
            k0 += len(got)
            r.call('setTimeStep', mul(num(2), DT))
            r.call('setFinalTime', mul(num(more + 5), DT))
            r.call('run')
            got = [x for x in r.dg.steps if x[1] == 'step'][k0:]
            rest = [(more, 2), (more + 2, 2), (more + 4, 1)]
            ctx.hold('resume', len(got) == 3, w, '%s: %d further steps of twice the length where 3 are needed' % (what, len(got)))
            for g, (t1, d1) in zip(got, rest):
                ctx.equal('resume', g[3], mul(num(t1), DT), w, what='%s: start of a further step of another length' % what)
                ctx.equal('resume', g[4], mul(num(d1), DT), w, what='%s: length of a further step of another length' % what)


def assembly(ctx):
    use(SYMDT)
    p = ctx.prog(OPUNITS)
    ctx.rule('integrator', 'the time integrator is the one the options name and is bound to the evolution operator')
    ctx.rule('operator', 'the evolution operator is the one the options name, on the solver\'s own space')
    ctx.rule('space', 'the finite element space has the order and basis of the options and the dimension of the mesh')
    ctx.rule('refusal', 'a negative order, a negative final time and a non-positive CFL factor are refused, and so are unknown integrators and operators')
    w = where(find_ctor(p, 'maxwell::Solver', 4))
    odes = enum(p, 'maxwell::ode_type')
    ctx.anchor(set(ODES) <= set(odes), 'time integrators of the options not found')

    def one(**opts):
        op = opts.pop('op', 'Global')
        return lambda: Run(ctx, p, Fraction(2), opts={k.replace('__', '.'): v for k, v in opts.items()}, op=op)

    for name, cls in sorted(ODES.items()):
        for op in sorted(OPERATORS) if name in ('RK4', 'SDIRK33') else ['Global']:
            order, basis = (3, 1) if name == 'RK4' else (2, 2)
            r = one(ode_type=num(odes[name]), op=op, evolution__order=num(order), basis_type=num(basis))()
            ctx.hold('integrator', r.thr is FALSE, w, '%s with the %s operator is refused' % (name, op))
            ini = r.dg.inits
            ok = len(ini) >= 1 and isinstance(ini[-1][1], Obj) and ini[-1][1].cls == 'mfem::' + cls
            ctx.hold('integrator', ok and ini[-1][0] is TRUE, w, '%s does not select %s but %s' % (name, cls, [getattr(x[1], 'cls', '?') for x in ini]))
            if name == 'SDIRK23' and ok:
                ctx.hold('integrator', ini[-1][1].f.get('#arg0') is num(2), w, 'SDIRK23 is not the L-stable flavour')
            ok = ok and isinstance(ini[-1][2], Obj) and ini[-1][2].cls == OPERATORS[op]
            ctx.hold('operator', ok, w, '%s operator: integrator bound to %s' % (op, [getattr(x[2], 'cls', '?') for x in ini]))
            tdo = r.call('getConstEvolTDO')
            o = r.ip.read(r.ip.deref(tdo))
            ctx.hold('operator', isinstance(o, Obj) and o.cls == OPERATORS[op], w, '%s operator: solver reports %s' % (op, getattr(o, 'cls', '?')))
            fes = r.ip.read(r.call('getFES', retlv=True))
            fec = r.ip.read(r.ip.deref(fes.f['#fec']))
            for k, v in (('#order', order), ('#dim', 1), ('#basis', basis)):
                ctx.equal('space', r.ip.term(fec.f[k]), num(v), w, what='%s of the finite element space' % k[1:])
            r.call('run')
            for x in r.dg.steps:
                ctx.hold('integrator', x[1] != 'step' or x[2].cls == 'mfem::' + cls, w, '%s: another integrator steps' % name)
    bad = dict(order=dict(evolution__order=num(-1)), final=dict(final_time=num(-1)), tiny=dict(final_time=num(Fraction(-1, 10 ** 9))), cfl=dict(cfl=ZERO), negcfl=dict(cfl=num(-1)),
               ode=dict(ode_type=num(max(odes.values()) + 1)), ode2=dict(ode_type=num(99)), op=dict(op='none'))
    for k, o in sorted(bad.items()):
        r = one(**o)()
        ctx.hold('refusal', r.thr is TRUE, w, 'options with a bad value (%s) are accepted' % k)
    good = dict(order=dict(evolution__order=ZERO), final=dict(final_time=ZERO), cfl=dict(cfl=num(Fraction(1, 1000))))
    for k, o in sorted(good.items()):
        r = one(**o)()
        ctx.hold('refusal', r.thr is FALSE, w, 'options with an extreme but valid value (%s) are refused' % k)



C_SI = num(299792458)
COMP = [(F, d) for F in 'EH' for d in range(3)]


def lines(toks):
    """lines of a text file: lists of words and values"""
    out = [[]]
    for t in toks:
        parts = list(t.args[1:]) if t.op == 'app' and t.args[0] == 'concat' else [t]
        for x in parts:
            if x.op == 'app' and x.args[0] in ('fn', 'f:std::setprecision', 'f:setprecision'):
                continue
            if x.op == 'str':
                a = x.args[0].split('\n')
                for i, y in enumerate(a):
                    if i:
                        out.append([])
                    if y:
                        out[-1].append(y)
            else:
                out[-1].append(x)
    if not out[-1]:
        out.pop()
    return out


def values(line):
    """values of a line that holds nothing but values separated by blanks, else None"""
    vs, gap = [], True
    for x in line:
        if isinstance(x, str):
            if x.strip():
                return None
            gap = True
        elif x.sort == 's':
            return None
        else:
            if not gap:
                return None
            vs.append(x)
            gap = False
    return vs


def due(r, steps=None, saves=0):
    """cycles at which a probe records: (cycle, time as a multiple of the step)"""
    ts = [Fraction(0)] + [a + b for a, b in times(r.ratio)]
    if saves > 0:
        total = -((-r.ratio) // 1)
        steps = max(1, int(total) // saves)
    return [(c, t) for c, t in enumerate(ts) if c % steps == 0 or t == r.ratio]


def padded(n, k=6):
    return str(n).zfill(k)


def probing(ctx):
    p = ctx.prog(OPUNITS)
    ctx.rule('cadence', 'a probe records at the start, after every so many steps and at the final time, and at no other time')
    ctx.rule('content', 'what is recorded is the field at the probe\'s position and at that time, in the order of the header')
    ctx.rule('file', 'every recorded value is also written to the probe\'s own file, with the time in seconds, unless writing is switched off')
    ctx.rule('elsewhere', 'a probe whose position belongs to another process or to no element records nothing')
    ctx.rule('stale', 'files left by an earlier run are removed by the first process of a node only, before the new ones are opened, and nothing but the probe directory of this case is removed')
    ctx.assumptions += ['positions are looked up exactly', 'two decimal places of formatting and number of digits are not compared']
    FT = ft_enum(p)
    XS = [sym('px%d' % i) for i in range(5)]
    points = {XS[0]: 0, XS[1]: 2, XS[2]: -2, XS[3]: 1, XS[4]: -1}
    wr = where([f for f in p.fn.values() if f['name'] == 'updateProbes' and f.get('body') is not None][0])
    cfgs = [(Fraction(9, 2), 0), (Fraction(0), 0), (Fraction(1), 0), (Fraction(5, 2), 0), (Fraction(4), 0), (Fraction(7), 0), (Fraction(13, 2), 1)]
    if ctx.tier == 'thorough':
        cfgs += [(Fraction(1, 3), 0), (Fraction(11), 0), (Fraction(23, 2), 0), (Fraction(6), 1)]
    #         steps, saves
    ivs = [(1, 0), (2, 0), (3, 0), (5, 2), (1, 3), (7, 100), (2, 1)]
    for ratio, rank in cfgs:
        use(SMALL if ratio == Fraction(9, 2) else SYMDT)
        fps, pps, exs, dss, mors = [], [], [], [], []
        for k, iv in enumerate(ivs):
            fps.append((COMP[k % 6], XS[k % 2 if k != 3 else 3], iv, k not in (4,), 10 + k))
            pps.append((XS[(k + 1) % 2], iv, k not in (5,), 11 + k))
            exs.append(('view%d' % k, iv))
            dss.append(('snap%d' % k, iv))
        fps.append((COMP[1], XS[2], (1, 0), True, 77))
        pps.append((XS[2], (1, 0), True, 78))
        fps.append((COMP[2], XS[4], (1, 0), True, 79))
        pps.append((XS[4], (2, 0), True, 80))
        mors = [('all', Fraction(0), ratio, 4), ('late', ratio / 2, ratio, 3), ('one', Fraction(3, 2), ratio, 1), ('many', Fraction(1, 2), Fraction(4), 50), ('off', Fraction(0), ratio, 0)]

        nc = 3 if ratio == Fraction(5, 2) else 2 if ratio == 7 else 1

        def pos(x):
            return vec([x] + [sym('%s_%d' % (x.args[0], c)) for c in range(1, nc)])

        def probes(r):
            ip = r.ip
            out = {'fieldProbes': [], 'pointProbes': [], 'exporterProbes': [], 'domainSnapshotProbes': [], 'morStateProbes': []}

            def put(lv, cls, saves, pid):
                ip.call_function(virt(p, cls, 'setProbeID', 1), [num(pid)], lv)
                if saves:
                    ip.call_function(virt(p, cls, 'setSaves', 1), [num(saves)], lv)
                return ip.read(lv)
            for (F, d), x, (st, sv), wf, pid in fps:
                out['fieldProbes'].append(put(construct(ip, 'maxwell::FieldProbe', [FT[F], num(d), pos(x), num(st), TRUE if wf else FALSE]), 'maxwell::FieldProbe', sv, pid))
            for x, (st, sv), wf, pid in pps:
                out['pointProbes'].append(put(construct(ip, 'maxwell::PointProbe', [pos(x), num(st), TRUE if wf else FALSE]), 'maxwell::PointProbe', sv, pid))

            def rec(T, **kw):
                o = ip.default_value(T, None)
                for k in kw:
                    if k not in o.f:
                        raise AnalysisError('%s has no member %s' % (T, k))
                return Obj(o.cls, o.base, dict(o.f, **kw))
            for n, (st, sv) in exs:
                out['exporterProbes'].append(rec('maxwell::ExporterProbe', name=string(n), visSteps=num(st), saves=num(sv)))
            if ratio == 4 or ratio == 7:
                # one snapshot probe at a time: they share a directory
                n, (st, sv) = dss[1] if ratio == 4 else dss[4]
                out['domainSnapshotProbes'].append(rec('maxwell::DomainSnapshotProbe', name=string(n), expSteps=num(st), saves=num(sv)))
            for n, a, b, sv in mors:
                out['morStateProbes'].append(rec('maxwell::MORStateProbe', name=string(n), record_time_start=mul(num(a), DT), record_time_final=mul(num(b), DT), saves=num(sv)))
            return out
        r = Run(ctx, p, ratio, probes=probes, points=points, coords=nc, rank=rank, size=2 if rank else 1)
        r.call('run')
        dg, ip = r.dg, r.ip
        base = 'Exports/%s/case' % ('mpi-2' if rank else 'single-core')
        n = r.n
        name = 'run of %s steps' % ratio

        def movie(lv, cls, getter):
            mv = ip.read(ip.call_function(virt(p, cls, getter, 0), [], lv, retlv=True))
            if not isinstance(mv, Arr) or mv.base is not None or mv.size.op != 'num':
                raise AnalysisError('recorded values not understood: %r' % (mv,))
            return mv.e

        def value(k, F, d, x):
            st = r.state(k)
            return dg.at(x, points[x], lambda j: st[('EH'.index(F) * 3 + d) * n + j])

        def compare(got, want, what, w):
            """want: list of (time, [values])"""
            ctx.hold('cadence', len(got) == len(want), w, '%s: %d records where %d are due' % (what, len(got), len(want)))
            for (t, vs) in want:
                if not ctx.hold('cadence', t in got, w, '%s: nothing recorded at %s' % (what, show(t))):
                    continue
                g = got[t]
                for i, (a, b) in enumerate(zip(g, vs)):
                    ctx.equal('content', a, b, w, what='%s: value %d at %s' % (what, i, show(t)))

        def compfile(path, want, what, w, wf, pos):
            if not wf:
                ctx.hold('file', path not in dg.files, w, '%s: file written though writing is off' % what)
                return
            if not ctx.hold('file', path in dg.files, w, '%s: no file %s' % (what, path)):
                return
            ctx.hold('file', rank or path not in dg.nodir, w, '%s: file %s opened in a directory nobody made' % (what, path))
            ls = lines(dg.files[path])
            data = [v for v in (values(l) for l in ls) if v]
            ctx.hold('file', len(data) == len(want), w, '%s: %d lines written where %d are due' % (what, len(data), len(want)))
            for v, (t, vs) in zip(data, want):
                exp = [div(t, C_SI)] + vs
                ctx.hold('file', len(v) == len(exp), w, '%s: %d values in a line where %d are due' % (what, len(v), len(exp)))
                for i, (a, b) in enumerate(zip(v, exp)):
                    ctx.equal('file', a, b, w, what='%s: value %d of the line for %s' % (what, i, show(t)))
            head = ' '.join(x for l in ls if not values(l) for x in l if isinstance(x, str))
            want_pos = [y for l in ls if not values(l) for x in l if not isinstance(x, str) for y in subterms(x) if y.op == 'sym']
            ctx.hold('file', want_pos == [pos] + [sym('%s_%d' % (pos.args[0], c)) for c in range(1, nc)], w, '%s: the header gives another position: %s' % (what, [show(y) for y in want_pos]))
            return head
        for i, ((F, d), x, (st, sv), wf, pid) in enumerate(fps):
            lv = r.call('getFieldProbe', num(i), retlv=True)
            what = '%s: field probe %d (every %d steps, %d saves)' % (name, i, st, sv)
            want = [] if points[x] < 0 else [(mul(num(t), DT), [value(c, F, d, x)]) for c, t in due(r, st, sv)]
            e = movie(lv, 'maxwell::FieldProbe', 'getFieldMovie')
            path = base + '/FieldProbes/FieldProbe%d.dat' % pid
            if points[x] < 0:
                ctx.hold('elsewhere', not e and path not in dg.files, wr, '%s: records a position that no element of this process contains' % what)
                continue
            compare({k: [ip.term(v)] for k, v in e.items()}, want, what, wr)
            h = compfile(path, want, what, wr, wf, x)
            if h is not None:
                ctx.hold('file', F + 'xyz'[d] in h and not any(f + 'xyz'[c] in h for f, c in COMP if (f, c) != (F, d)), wr, '%s: header names another field: %s' % (what, h))
        for i, (x, (st, sv), wf, pid) in enumerate(pps):
            lv = r.call('getPointProbe', num(i), retlv=True)
            what = '%s: point probe %d (every %d steps, %d saves)' % (name, i, st, sv)
            e = movie(lv, 'maxwell::PointProbe', 'getFieldMovies')
            path = base + '/PointProbes/PointProbe%d.dat' % pid
            if points[x] < 0:
                ctx.hold('elsewhere', not e and path not in dg.files, wr, '%s: records a position that no element of this process contains' % what)
                continue
            want = [(mul(num(t), DT), [value(c, F, d, x) for F, d in COMP]) for c, t in due(r, st, sv)]
            compare({k: [ip.term(ip.getc(v, ('f', F + 'xyz'[d]))) for F, d in COMP] for k, v in e.items()}, want, what, wr)
            h = compfile(path, want, what, wr, wf, x)
            if h is not None:
                ix = [h.find(F + 'xyz'[d]) for F, d in COMP]
                ctx.hold('file', -1 not in ix and ix == sorted(ix), wr, '%s: header does not name the columns in order: %s' % (what, h))
        for nm, (st, sv) in exs:
            what = '%s: exporter %s (every %d steps, %d saves)' % (name, nm, st, sv)
            got = [s for s in dg.saves if s[2] is string(nm)]
            want = due(r, st, sv)
            ctx.hold('cadence', [s[4] for s in got] == [num(c) for c, _ in want] and all(s[0] is TRUE for s in got), wr, '%s: saves cycles %s where %s are due' % (what, [show(s[4]) for s in got], [c for c, _ in want]))
            for s, (c, t) in zip(got, want):
                T = mul(num(t), DT)
                a, b = s[5], T
                if a is not b:
                    b = div(mk('app', ('round', mul(num(1000), T)), 'n'), num(1000)) if T is not ZERO else ZERO
                ctx.equal('content', a, b, wr, what='%s: time of cycle %d' % (what, c))
                stt = r.state(c)
                ctx.hold('content', set(s[6]) == {'E', 'H'}, wr, '%s: fields saved are %s' % (what, sorted(s[6])))
                for F in 'EH':
                    v = s[6].get(F, [])
                    o = 'EH'.index(F) * 3 * n
                    ctx.hold('content', len(v) == 3 * n, wr, '%s: %d unknowns of %s saved' % (what, len(v), F))
                    for i, x in enumerate(v):
                        ctx.equal('content', x, stt[o + i], wr, what='%s: unknown %d of %s at cycle %d' % (what, i, F, c))
        for lv_ in ([dss[1]] if ratio == 4 else [dss[4]] if ratio == 7 else []):
            nm, (st, sv) = lv_
            what = '%s: snapshot every %d steps, %d saves' % (name, st, sv)
            want = due(r, st, sv)
            root = base + '/DomainSnapshotProbes/rank_%d/cycle_' % rank
            cyc = sorted({k[len(root):].split('/')[0] for k in dg.files if k.startswith(root)})
            ctx.hold('cadence', cyc == [padded(c) for c, _ in want], wr, '%s: cycles %s where %s are due' % (what, cyc, [c for c, _ in want]))
            for c, t in want:
                d0 = root + padded(c) + '/'
                tt = lines(dg.files.get(d0 + 'time.txt', []))
                v = values(tt[0]) if tt else None
                ctx.hold('content', v is not None and len(v) == 1, wr, '%s: no time stored with cycle %d' % (what, c))
                if v:
                    ctx.equal('content', v[0], mul(num(t), DT), wr, what='%s: time stored with cycle %d' % (what, c))
                stt = r.state(c)
                for i, (F, d) in enumerate(COMP):
                    pth = d0 + F + 'xyz'[d] + '.gf'
                    g = [x for x in dg.fs if x[1] == 'grid' and x[2] == pth]
                    if ctx.hold('content', len(g) == 1 and g[0][0] is TRUE, wr, '%s: %s of cycle %d saved %d times' % (what, pth, c, len(g))):
                        for j, x in enumerate(g[0][3]):
                            ctx.equal('content', x, stt[i * n + j], wr, what='%s: unknown %d of %s%s at cycle %d' % (what, j, F, 'xyz'[d], c))
        for nm, a, b, sv in mors:
            what = '%s: state records %s (%d from %s to %s)' % (name, nm, sv, a, b)
            want = []
            for c, t in enumerate([Fraction(0)] + [x + y for x, y in times(ratio)]):
                if a <= t <= b and len(want) < sv and t >= a + len(want) * ((b - a) / (sv - 1) if sv > 1 else 0):
                    want.append((c, t))
            root = base + '/MORStateProbes/%s/x_' % nm
            got = sorted((k for k in dg.files if k.startswith(root)), key=lambda k: int(k[len(root):]))
            ctx.hold('cadence', [k[len(root):] for k in got] == [str(i) for i in range(len(want))], wr, '%s: %d records where %d are due' % (what, len(got), len(want)))
            for k, (c, t) in zip(got, want):
                vs = [values(l) for l in lines(dg.files[k])]
                flat = [x for v in vs for x in (v or [])]
                exp = [mul(num(t), DT), num(6 * n)] + r.state(c)
                ctx.hold('content', len(flat) == len(exp), wr, '%s: %d values in %s where %d are due' % (what, len(flat), k, len(exp)))
                for i, (x, y) in enumerate(zip(flat, exp)):
                    ctx.equal('content', x, y, wr, what='%s: value %d of %s' % (what, i, k))
                ctx.hold('file', rank or k not in dg.nodir, wr, '%s: file %s opened in a directory nobody made' % (what, k))
        ctx.hold('elsewhere', not dg.outside, wr, '%s: fields are evaluated on elements %s' % (name, sorted(set(dg.outside))))
        for pc, path, opened in dg.gone:
            ctx.hold('stale', path in [base + '/' + k for k in ('FieldProbes', 'PointProbes', 'DomainSnapshotProbes')], wr, '%s: %s is removed' % (name, path))
            ctx.hold('stale', rank == 0, wr, '%s: a process that is not the first of its node removes %s' % (name, path))
            ctx.hold('stale', not any(x.startswith(path + '/') for x in dg.opened[:opened]), wr, '%s: %s is removed after files in it were opened' % (name, path))
        if rank == 0:
            for k in ('FieldProbes', 'PointProbes'):
                ctx.hold('stale', any(path == base + '/' + k for _, path, _ in dg.gone), wr, '%s: %s of an earlier run stays' % (name, k))


CHECKS = {'P19': stepping, 'P20': assembly, 'P21': probing}
