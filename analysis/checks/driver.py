"""Case file (JSON) -> options, sources, probes, model."""
from fw import *
from terms import *
from checks.common import *
from checks.sources import ft_enum, syms, norm, dot, NS

UNITS = ['src/driver/driver.cpp', 'src/components/Sources.cpp', 'src/components/Spherical.cpp',
         'src/components/Model.cpp', 'src/components/Material.cpp']
CASE = sym('case', None)


def has(x, k):
    return as_bool(mk('app', ('has', x, string(k)), 'b'))


def idx(x, k):
    return mk('app', ('idx', x, string(k)), None)


def either(*bs):
    r = FALSE
    for b in bs:
        r = b_or(r, b)
    return r


# ---------------------------------------------------------- solver options

OPTS = [  # key, field path, conversion, default
    ('upwind_alpha', ('evolution', 'alpha'), 'n', 1),
    ('time_step', ('time_step',), 'n', 0),
    ('final_time', ('final_time',), 'n', 2),
    ('cfl', ('cfl',), 'n', 1),
    ('order', ('evolution', 'order'), 'i', 2),
    ('spectral', ('evolution', 'spectral'), 'b', False),
    ('export_operator', ('evolution', 'export_evolution_operator'), 'b', False),
    ('basis_type', ('basis_type',), 'i', None),
    ('ode_type', ('ode_type',), 'i', 0),
]


def conv(x, k):
    return trunc(x) if k == 'i' else x


def solver_options(ctx):
    p = ctx.prog(UNITS)
    f = fn(p, 'buildSolverOptions', 1)
    ops = dict(enum(p, 'maxwell::EvolutionOperatorType'))
    ctx.rule('option', 'value of the solver option after reading a case file = value under its own key when present, documented default otherwise, for every combination of present keys')
    ctx.rule('operator-word', 'evolution operator follows the word in the case file; any other word is refused')
    # arbitrary document
    ip = ctx.interp(p)
    v, thr = run(ip, f, [CASE])
    so = idx(CASE, 'solver_options')
    hs = has(CASE, 'solver_options')
    word = idx(so, 'evolution_operator')
    given = b_and(hs, has(so, 'evolution_operator'))
    names = [('maxwell', 'Maxwell'), ('global', 'Global'), ('hesthaven', 'Hesthaven')]
    known = either(*[b_eq(word, string(w)) for w, _ in names])
    ctx.equal('operator-word', thr, b_and(given, b_not(known)), where(f), what='refusal condition')
    ok = b_not(b_and(given, b_not(known)))

    def op(n):
        return enumc('maxwell::EvolutionOperatorType::' + n, ops[n])
    # documents of known shape: every key alone, all together, all but one, none
    keys = [o[0] for o in OPTS]
    shapes = [set()] + [{k} for k in keys] + [set(keys) - {k} for k in keys] + [set(keys)]
    for hasso, present in [(False, set())] + [(True, s) for s in shapes]:
        for w in (None, 'maxwell', 'global', 'hesthaven', 'Global', 'hesthaven ', '', 'dg'):
            if w is not None and not hasso:
                continue
            if w not in (None, 'maxwell') and len(present) not in (0, len(keys)):
                continue
            doc = {k: sym('v_' + k, 'b' if any(o[0] == k and o[2] == 'b' for o in OPTS) else 'n') for k in keys if k in present}
            if w is not None:
                doc['evolution_operator'] = w
            ip = ctx.interp(p)
            v, thr = run(ip, f, [js({'solver_options': doc} if hasso else {})])
            label = 'keys %s' % (sorted(doc) if hasso else 'without solver_options')
            bad = w is not None and w not in dict(names)
            ctx.equal('operator-word', thr, TRUE if bad else FALSE, where(f), what='refusal, operator %r, %s' % (w, label))
            if bad or thr is TRUE:
                continue
            for k, path, c, d in OPTS:
                got = ip.term(field(ip, v, *path))
                if k in present:
                    want = conv(sym('v_' + k, 'b' if c == 'b' else 'n'), c)
                elif d is None:
                    want = ip.term(field(ip, ip.default_value('maxwell::SolverOptions'), *path))
                else:
                    want = (TRUE if d else FALSE) if c == 'b' else num(d)
                if k == 'ode_type' and k not in present and got.op == 'enumc':
                    got = num(got.args[1])
                ctx.equal('option', got, want, where(f), what='%s; %s' % (k, label))
            got = ip.term(field(ip, v, 'evolution', 'op'))
            ctx.equal('operator-word', got, op(dict(names).get(w, 'Global')), where(f), what='operator %r, %s' % (w, label))
    # arbitrary document, value by value
    ip = ctx.interp(p)
    v, thr = run(ip, f, [CASE])
    for k, path, c, d in OPTS:
        if d is None:
            continue
        x = idx(so, k)
        dv = (TRUE if d else FALSE) if c == 'b' else num(d)
        got = ip.term(field(ip, v, *path))
        if c == 'i':
            got = lift1(lambda t: num(t.args[1]) if t.op == 'enumc' else t, got) or got
        want = ite(b_and(hs, has(so, k)), conv(x, c), dv)
        ctx.equal('option', got, want, where(f), what='%s, any document' % k, pre=ok)
    ctx.assumptions.append('JSON access of the nlohmann library behaves as documented (contains, index, conversion)')



# ----------------------------------------------------------------- sources

def _mesh_arg(ip, p):
    T = 'mfem::Mesh'
    return Ptr(LV(ip.new_cell(Obj(T, sym('mesh', None), {}))), None)


def _eval_all(ip, p, this, cls, dim, t):
    f = virt(p, cls, 'eval', 4)
    ft = ft_enum(p)
    out = {}
    for F in 'EH':
        for d in range(3):
            out[F, d] = outcome(ip, f, [vec(syms('r', dim)), t, ft[F], num(d)], this)
    return out, f


def sources_json(ctx):
    p = ctx.prog(UNITS)
    ft = ft_enum(p)
    f = fn(p, 'buildSources', 2)
    t = sym('t')
    c0 = dict(spread=sym('s'), length=sym('L'))
    ctx.rule('source', 'each entry of the case file yields one source that evaluates, for every position, time, field and direction, like the source built directly from the same numbers')
    ctx.rule('source-count', 'exactly one source per entry, in the order of the file')
    ctx.rule('source-words', 'source type, magnitude type and field words outside the documented ones are refused, and documented ones accepted')
    ctx.rule('auto-delay', 'without an explicit mean the delay places the pulse five widths (sqrt 2 spread) before the first-touched point of the tagged surface')

    def build(doc, mesh=None, models=None):
        ip = ctx.interp(p, models=models) if models else ctx.interp(p)
        m = NULL if mesh is None else _mesh_arg(ip, p)
        v, thr = run(ip, f, [js({'sources': doc}), m])
        return ip, v, thr

    def compare(doc, exps, label, mesh=None, models=None, rule='source', pre=TRUE):
        """exps: list of (dim, maker(ip) -> lv, cls)"""
        ip, v, thr = build(doc, mesh, models)
        ctx.equal('source-words', thr, FALSE, where(f), what='documented source refused: ' + label, pre=pre)
        if thr is TRUE:
            return
        els = elements(ip, v)
        if not ctx.hold('source-count', len(els) == len(exps), where(f), '%s: %d sources from %d entries' % (label, len(els), len(exps))):
            return
        for n, (el, (dim, mk_)) in enumerate(zip(els, exps)):
            lv, o = obj_at(ip, el)
            got, g = _eval_all(ip, p, lv, o.cls, dim, t)
            w = mk_(ip)
            want, _ = _eval_all(ip, p, w, ip.read(w).cls, dim, t)
            for k in got:
                ctx.equal(rule, got[k], want[k], where(f), what='%s, source %d, field %s direction %d' % (label, n, k[0], k[1]), pre=pre)

    P3, K3, S, L, M = syms('p', 3), syms('k', 3), sym('s'), sym('L'), sym('m')
    FW = {'electric': 'E', 'magnetic': 'H'}

    def zeros(n):
        return vec([ZERO] * n)

    def gauss(dim, s=S):
        return lambda ip: construct(ip, NS + 'Gaussian', [s, zeros(dim), num(dim)])

    def init(F, fnmk, cen, pol=P3):
        return lambda ip: construct(ip, NS + 'InitialField', [fnmk(ip), ft[F], vec(pol), vec(cen)])

    def total(mk_):
        return lambda ip: construct(ip, NS + 'TotalField', [mk_(ip)])

    def pwave(fnmk, pol=P3, k=K3):
        return total(lambda ip: construct(ip, NS + 'Planewave', [fnmk(ip), vec(pol), vec(k), ft['E']]))

    def dip(s, L, m):
        return total(lambda ip: construct(ip, NS + 'DerivGaussDipole', [L, s, m]))

    def free(cls):
        return lambda ip: cell(ip, ip.default_value(NS + cls))

    entries = []
    for w, F in FW.items():
        for dim in (1, 2, 3):
            cen = syms('c', dim)
            entries.append(('gaussian initial field %s %d-D' % (w, dim), dict(type='initial', field_type=w, center=cen, polarization=P3, dimension=dim, magnitude=dict(type='gaussian', spread=S)), (dim, init(F, gauss(dim), cen))))
            md = [trunc(x) for x in syms('n', dim)]
            entries.append(('resonant initial field %s %d-D' % (w, dim), dict(type='initial', field_type=w, center=cen, polarization=P3, dimension=dim, magnitude=dict(type='resonant', modes=md)),
                            (dim, init(F, lambda ip, md=md: construct(ip, NS + 'SinusoidalMode', [vec(md)]), [ZERO] * dim))))
        entries.append(('besselj6_2D %s' % w, dict(type='initial', field_type=w, polarization=P3, magnitude=dict(type='besselj6_2D')), (2, init(F, free('BesselJ6'), [ZERO] * 3))))
        entries.append(('besselj6_3D %s' % w, dict(type='initial', field_type=w, polarization=P3, magnitude=dict(type='besselj6_3D')), (3, init(F, free('SphericalBesselJ6'), [ZERO] * 3))))
    mv = syms('m', 3)
    proj = div(dot(mv, K3), norm(K3))
    fr = sym('fr')
    cSI = num(Fraction('299792458'))
    for dim in (1, 2, 3):
        e = dict(type='planewave', polarization=P3, propagation=K3, tags=[5])
        entries.append(('plane wave, %d-D' % dim, dict(e, magnitude=dict(spread=S, mean=mv)), (dim, pwave(lambda ip: construct(ip, NS + 'Gaussian', [S, vec([proj]), num(1)])))))
        entries.append(('plane wave without mean, %d-D' % dim, dict(e, magnitude=dict(spread=S)), (dim, pwave(lambda ip: construct(ip, NS + 'Gaussian', [S, vec([ZERO]), num(1)])))))
        entries.append(('modulated plane wave, %d-D' % dim, dict(e, magnitude=dict(spread=S, mean=mv, frequency=fr)), (dim, pwave(lambda ip: construct(ip, NS + 'ModulatedGaussian', [S, vec([proj]), div(fr, cSI), num(1)])))))
    entries.append(('modulated plane wave without mean', dict(e, magnitude=dict(spread=S, frequency=fr)), (3, pwave(lambda ip: construct(ip, NS + 'ModulatedGaussian', [S, vec([ZERO]), div(fr, cSI), num(1)])))))
    entries.append(('plane wave with a typed magnitude', dict(e, magnitude=dict(type='gaussian', spread=S, mean=mv)), (3, pwave(lambda ip: construct(ip, NS + 'Gaussian', [S, vec([proj]), num(1)])))))
    r2 = f_sqrt(num(2))
    entries.append(('dipole', dict(type='dipole', tags=[5], magnitude=dict(length=L, spread=S, mean=M)), (3, dip(S, L, M))))
    entries.append(('dipole without mean', dict(type='dipole', tags=[5], magnitude=dict(length=L, spread=S)), (3, dip(S, L, mul(num(5), mul(S, r2))))))
    for label, doc, exp in entries:
        compare([doc], [exp], label)
    # explicit mean wins over the automatic one also when a mesh is at hand
    mm = MeshModel(3, [7, 5, 9, 5])
    by = {l: (d, x) for l, d, x in entries}
    for label in ('plane wave, 3-D', 'modulated plane wave, 3-D', 'dipole'):
        compare([by[label][0]], [by[label][1]], label + ' with a mesh', mesh=True, models=mm.models())
    for label in ('plane wave without mean, 3-D', 'dipole without mean'):
        d = dict(by[label][0])
        d.pop('tags')
        compare([d], [by[label][1]], label + ', untagged, with a mesh', mesh=True, models=mm.models())
    # several entries: one source each, in order
    multi = [by['gaussian initial field electric 3-D'], by['plane wave, 3-D'], by['dipole'], by['besselj6_3D magnetic'], by['plane wave, 3-D']]
    compare([d for d, _ in multi], [x for _, x in multi], 'five entries')
    ip, v, thr = build([])
    ctx.hold('source-count', thr is FALSE and len(elements(ip, v)) == 0, where(f), 'an empty list of sources')
    # short vectors are completed with zeros
    q = syms('q', 2)
    g1 = lambda ip: construct(ip, NS + 'Gaussian', [S, vec([ZERO]), num(1)])
    compare([dict(type='planewave', polarization=q, propagation=syms('k', 2), tags=[5], magnitude=dict(spread=S))],
            [(3, pwave(g1, q + [ZERO], syms('k', 2) + [ZERO]))], 'vectors with two entries')
    # automatic delay
    big = num(Fraction(2) ** 1024 - Fraction(2) ** 971)
    for dim in (2, 3):
        for attrs, tags in (([7, 5, 9, 5], [5]), ([7, 5, 9, 5], [9, 5]), ([5], [5]), ([7, 5, 9, 5], [9, 2])):
            mm = MeshModel(dim, attrs)
            hit = [b for b, a in enumerate(attrs) if a in tags]
            kn = norm(K3)
            kh = [div(x, kn) for x in K3]
            mins = {}
            for kind in ('planewave', 'dipole'):
                cur = big
                for b in hit:
                    c = mm.centroid(b)
                    val_ = dot(c, kh[:dim]) if kind == 'planewave' else norm(c)
                    cur = f_minmax('min', val_, cur)
                mins[kind] = cur
            doc = [dict(type='planewave', polarization=P3, propagation=K3, tags=tags, magnitude=dict(spread=S))]
            doc2 = [dict(type='planewave', polarization=P3, propagation=K3, tags=tags, magnitude=dict(spread=S, frequency=fr))]
            doc3 = [dict(type='dipole', tags=tags, magnitude=dict(length=L, spread=S))]
            for kind, d in (('planewave', doc), ('planewave', doc2), ('dipole', doc3)):
                for procs in ('one process', 'all processes'):
                    if procs == 'all processes' and not hit:
                        continue
                    mod = mm.models()
                    if procs == 'one process':
                        mod['MPI_Allreduce'] = reduce_one
                    ip, v, thr = build(d, True, mod)
                    if thr is TRUE:
                        ctx.bad('auto-delay', where(f), 'automatic delay refused')
                        continue
                    lv, o = obj_at(ip, elements(ip, v)[0])
                    dm = dim if kind == 'planewave' else 3
                    got, g = _eval_all(ip, p, lv, o.cls, dm, t)
                    pre = TRUE
                    if procs == 'all processes':
                        gm = next((r for r in map(reduced, got.values()) if r is not None), None)
                        if gm is None:
                            ctx.bad('auto-delay', where(f), '%s: the delay does not depend on a reduction over all processes' % kind)
                            continue
                        ctx.equal('auto-delay', gm.args[2], mins[kind], where(f), what='%s: local minimum over the tagged boundary elements (%d-D, tags %s)' % (kind, dim, tags))
                        ctx.hold('auto-delay', 'MIN' in show(gm.args[1]), where(f), '%s: reduction over processes is not a minimum: %s' % (kind, show(gm.args[1])))
                        pre = b_lt(gm, num(10 ** 300))
                    else:
                        gm = mins[kind] if hit else ZERO
                    if kind == 'planewave':
                        m1 = sub(gm, mul(num(5), mul(S, r2)))
                        m1 = div(dot([mul(m1, x) for x in kh], K3), kn)
                        w = pwave((lambda ip: construct(ip, NS + 'Gaussian', [S, vec([m1]), num(1)])) if d is doc else (lambda ip: construct(ip, NS + 'ModulatedGaussian', [S, vec([m1]), div(fr, cSI), num(1)])))(ip)
                    else:
                        w = dip(S, L, f_minmax('max', mul(S, r2), sub(mul(num(5), mul(S, r2)), gm)))(ip)
                    want, _ = _eval_all(ip, p, w, ip.read(w).cls, dm, t)
                    for k in got:
                        ctx.equal('auto-delay', got[k], want[k], where(f), pre=pre, what='%s, %s, %d-D, tags %s, field %s direction %d' % (kind, procs, dim, tags, k[0], k[1]))
    # words
    ty, mt, fw = sym('type', 's'), sym('mtype', 's'), sym('fword', 's')
    doc = dict(type=ty, field_type=fw, center=syms('c', 2), polarization=P3, propagation=K3, dimension=2, tags=[5], magnitude=dict(type=mt, spread=S, length=L, modes=syms('n', 2)))
    ip, v, thr = build([doc])
    is_ = lambda x, *ws: either(*[b_eq(x, string(w)) for w in ws])
    okw = b_or(is_(ty, 'planewave', 'dipole'), b_and(is_(ty, 'initial'), b_and(is_(mt, 'gaussian', 'resonant', 'besselj6_2D', 'besselj6_3D'), is_(fw, 'electric', 'magnetic'))))
    ctx.equal('source-words', thr, b_not(okw), where(f), what='refusal condition over all words')
    for n in (4, 7):
        for key in ('polarization', 'propagation'):
            ip, v, thr = build([dict(type='planewave', polarization=P3, propagation=K3, tags=[5], magnitude=dict(spread=S), **{}) | {key: syms('z', n)}])
            ctx.hold('source-words', thr is TRUE, where(f), '%s with %d entries is accepted' % (key, n))
    ctx.assumptions.append('JSON access of the nlohmann library behaves as documented; mesh vertex, attribute and boundary queries return what they are named for')


def reduced(t):
    for x in subterms(t):
        if x.op == 'app' and x.args[0] == 'allreduce':
            return x
    return None


# ------------------------------------------------------------------ probes

DIRS = {'X': 0, 'Y': 1, 'Z': 2}


def probes_json(ctx):
    p = ctx.prog(UNITS)
    ft = ft_enum(p)
    f = fn(p, 'buildProbes', 1)
    ctx.rule('probe-count', 'exactly one probe of the right kind per entry, in order, and none of any other kind')
    ctx.rule('probe-values', 'each probe carries the position, field, direction, name, path, tags, identifier, number of saves and recording window of its own entry')
    ctx.rule('probe-interval', 'sampling interval = given steps; or the number of steps of the run divided by the number of saves, at least one; one when neither is given or the time step is not yet known')
    ctx.rule('probe-words', 'unknown field or polarisation words and surface probes without tags are refused, everything documented is accepted')
    KINDS = ['fieldProbes', 'exporterProbes', 'pointProbes', 'nearFieldProbes', 'domainSnapshotProbes', 'rcsSurfaceProbes', 'morStateProbes']
    steps, saves = trunc(sym('steps')), trunc(sym('saves'))
    tf, dt = sym('tf'), sym('dt')
    FN = 'someMesh.msh'

    def ivl(d, so):
        if 'steps' in d:
            return f_minmax('max', ONE, d['steps'])
        if 'saves' in d:
            T, h = so.get('final_time', num(2)), so.get('time_step', ZERO)
            if h is ZERO:
                return ONE
            n = mk('app', ('ceil', div(T, h)), 'n')
            return ite(b_le(d['saves'], ZERO), ONE, ite(b_le(h, ZERO), ONE, f_minmax('max', ONE, idiv(n, d['saves']))))
        return ONE

    def get(ip, v, name):
        """field, or getter of the same meaning"""
        return ip.term(field(ip, v, name))

    def call(ip, lv, name):
        o = ip.read(lv)
        m = virt(p, o.cls, name, 0)
        r = ip.call_function(m, [], lv)
        return ip.read(r) if isinstance(r, LV) else r

    def check(probes, label, so=None, model=True, expect_throw=False):
        so = dict(final_time=tf, time_step=dt) if so is None else so
        doc = {'probes': probes}
        if so != 'none':
            doc['solver_options'] = so
        else:
            so = {}
        if model:
            doc['model'] = {'filename': FN}
        ip = ctx.interp(p)
        v, thr = run(ip, f, [js(doc)])
        if expect_throw:
            ctx.hold('probe-words', thr is TRUE, where(f), label + ' is accepted')
            return
        ctx.equal('probe-words', thr, FALSE, where(f), what=label + ' is refused')
        if thr is TRUE:
            return
        lists = {k: field(ip, v, k) for k in KINDS}
        exp = {'exporterProbes': [probes['exporter']] if 'exporter' in probes else [], 'domainSnapshotProbes': [probes['domain_snapshot']] if 'domain_snapshot' in probes else [],
               'pointProbes': probes.get('point', []), 'fieldProbes': probes.get('field', []), 'nearFieldProbes': probes.get('farfield', []),
               'rcsSurfaceProbes': probes.get('rcssurface', []), 'morStateProbes': probes.get('mor_state', [])}
        for k in KINDS:
            els = elements(ip, lists[k])
            if not ctx.hold('probe-count', len(els) == len(exp[k]), where(f), '%s: %d %s from %d entries' % (label, len(els), k, len(exp[k]))):
                continue
            for n, (e, d) in enumerate(zip(els, exp[k])):
                lb = '%s, %s[%d]' % (label, k, n)
                lv = cell(ip, e)

                def eq(rule, got, want, what):
                    got = ip.term(got)
                    ctx.equal(rule, got, want if isinstance(want, Term) else js(want), where(f), what='%s: %s' % (lb, what))

                def seq(got, want, what):
                    g = elements(ip, got)
                    if ctx.hold('probe-values', len(g) == len(want), where(f), '%s: %s has %d entries instead of %d' % (lb, what, len(g), len(want))):
                        for i, (a, b) in enumerate(zip(g, want)):
                            eq('probe-values', a, b, '%s[%d]' % (what, i))
                sv = d.get('saves', ZERO)
                if k in ('pointProbes', 'fieldProbes'):
                    seq(call(ip, lv, 'getPoint'), d['position'], 'position')
                    eq('probe-interval', call(ip, lv, 'getVisSteps'), ivl(d, so), 'interval')
                    eq('probe-values', call(ip, lv, 'getSaves'), sv, 'saves')
                    eq('probe-values', call(ip, lv, 'getProbeID'), num(n), 'identifier')
                    eq('probe-values', get(ip, e, 'write'), TRUE, 'written to file')
                    if k == 'fieldProbes':
                        eq('probe-values', call(ip, lv, 'getFieldType'), ft[{'electric': 'E', 'magnetic': 'H'}[d['field_type']]], 'field')
                        eq('probe-values', call(ip, lv, 'getDirection'), num(DIRS[d['polarization']]), 'direction')
                    continue
                dflt = ip.default_value(e.cls)
                nm = d.get('name', string(FN) if k in ('exporterProbes', 'domainSnapshotProbes') else None)
                eq('probe-values', get(ip, e, 'name'), nm if nm is not None else get(ip, dflt, 'name'), 'name')
                eq('probe-values', get(ip, e, 'saves'), d.get('saves', num(10) if k == 'morStateProbes' else ZERO), 'saves')
                if k == 'morStateProbes':
                    eq('probe-values', get(ip, e, 'record_time_start'), d.get('record_time_start', ZERO), 'start of the recording window')
                    eq('probe-values', get(ip, e, 'record_time_final'), d.get('record_time_final', ZERO), 'end of the recording window')
                    continue
                eq('probe-interval', get(ip, e, 'visSteps' if k == 'exporterProbes' else 'expSteps'), ivl(d, so), 'interval')
                if k in ('nearFieldProbes', 'rcsSurfaceProbes'):
                    seq(field(ip, e, 'tags'), d['tags'], 'tags')
                if k == 'nearFieldProbes':
                    eq('probe-values', get(ip, e, 'exportPath'), d.get('export_path', get(ip, dflt, 'exportPath')), 'export path')

    T = lambda *n: [trunc(sym(x)) for x in n]
    pos = lambda n, b='x': [sym('%s%d' % (b, i)) for i in range(n)]
    ivs = [{}, {'steps': steps}, {'saves': saves}, {'steps': steps, 'saves': saves}, {'saves': ZERO}, {'steps': ZERO}]
    nm = sym('name', 's')

    def forms(iv):
        yield 'exporter', dict(iv)
        yield 'exporter', dict(iv, name=nm)
        for n in (1, 2, 3):
            yield 'point', [dict(iv, position=pos(n))]
            for w in ('electric', 'magnetic'):
                for d in 'XYZ':
                    yield 'field', [dict(iv, position=pos(n), field_type=w, polarization=d)]
        yield 'farfield', [dict(iv, tags=T('g'))]
        yield 'farfield', [dict(iv, tags=T('g', 'h', 'i'), name=nm, export_path=sym('path', 's'))]
        yield 'farfield', [dict(iv, tags=T('g', 'h', 'i'), export_path=sym('path', 's'))]
        yield 'domain_snapshot', dict(iv)
        yield 'domain_snapshot', dict(iv, name=nm)
        yield 'rcssurface', [dict(iv, tags=T('g'))]
        yield 'rcssurface', [dict(iv, tags=T('g', 'h', 'i'), name=nm)]
    for iv in ivs:
        for kind, d in forms(iv):
            check({kind: d}, '%s %s' % (kind, sorted(d if isinstance(d, dict) else d[0])))
    for mo in ({}, {'name': nm}, {'record_time_start': sym('t0')}, {'record_time_final': sym('t1')}, {'saves': saves}, {'name': nm, 'record_time_start': sym('t0'), 'record_time_final': sym('t1'), 'saves': saves}):
        check({'mor_state': [mo]}, 'mor_state %s' % sorted(mo))
    # defaults of the options used by the interval
    for so in ('none', {}, {'final_time': tf}, {'time_step': dt}):
        for kind, d in (('exporter', {'saves': saves}), ('point', [{'position': pos(3), 'saves': saves}]), ('rcssurface', [{'tags': T('g'), 'saves': saves}])):
            check({kind: d}, '%s with saves, options %s' % (kind, so if so == 'none' else sorted(so)), so=so)
    # several of everything: order, identifiers, independence
    b = lambda i: {'saves': trunc(sym('saves%d' % i))}
    many = {'point': [dict(b(1), position=pos(3, 'a')), dict(position=pos(3, 'b'), steps=steps), dict(position=pos(2, 'c'))],
            'field': [dict(b(2), position=pos(3, 'd'), field_type='electric', polarization='Z'), dict(position=pos(3, 'e'), field_type='magnetic', polarization='X')],
            'farfield': [dict(tags=T('g1', 'g2'), name=string('n1')), dict(b(3), tags=T('g3'))],
            'rcssurface': [dict(tags=T('g4'), steps=steps), dict(tags=T('g5', 'g6'), name=string('n2'))],
            'mor_state': [dict(name=string('n3')), dict(record_time_final=sym('t9'))],
            'exporter': dict(b(4)), 'domain_snapshot': dict(b(5), name=string('n4'))}
    check(many, 'all kinds together')
    check({}, 'no probes')
    ip = ctx.interp(p)
    v, thr = run(ip, f, [js({'model': {'filename': FN}})])
    ctx.hold('probe-count', thr is FALSE and all(not elements(ip, field(ip, v, k)) for k in KINDS), where(f), 'probes created or refused for a case file without probes')
    # words
    for kind in ('farfield', 'rcssurface'):
        check({kind: [{'name': nm}]}, kind + ' probe without tags', expect_throw=True)
        check({kind: [{'tags': T('g')}, {'name': nm}]}, 'second %s probe without tags' % kind, expect_throw=True)
    fw, pw = sym('fword', 's'), sym('pword', 's')
    ip = ctx.interp(p)
    v, thr = run(ip, f, [js({'probes': {'field': [{'position': pos(3), 'field_type': fw, 'polarization': pw}]}})])
    is_ = lambda x, *ws: either(*[b_eq(x, string(w)) for w in ws])
    ctx.equal('probe-words', thr, b_not(b_and(is_(fw, 'electric', 'magnetic'), is_(pw, 'X', 'Y', 'Z'))), where(f), what='refusal condition over all words')
    ctx.assumptions.append('JSON access of the nlohmann library behaves as documented; integer entries hold integers')


CHECKS = {'P08': solver_options, 'P09': sources_json, 'P10': probes_json}
