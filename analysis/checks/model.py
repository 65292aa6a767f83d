"""Model: materials, boundary markers, element maps; model section of a case file."""
import itertools
from fw import *
from terms import *
from checks.common import *
from checks.sources import ft_enum, syms
from checks.driver import UNITS, either

BC = 'maxwell::BdrCond'


def bdr_enum(p):
    return {k: enumc(BC + '::' + k, v) for k, v in p.enum[BC]}


def const_map(d):
    return Arr('map', None, num(len(d)), {num(k): v for k, v in d.items()}, None)


def keys_of(ip, m):
    """constant keys of a map value"""
    m = ip.read(m) if isinstance(m, LV) else m
    if not isinstance(m, Arr) or m.base is not None:
        raise prog.AnalysisError('map is not resolved: %s' % str(m)[:200])
    return {(k.args[1] if k.op == 'enumc' else int(val(k)) if is_num(k) else k): v for k, v in m.e.items()}


def material(ip, i):
    e, u, s = sym('eps%s' % i), sym('mu%s' % i), sym('sig%s' % i)
    pc = ip.st.pc
    lv = construct(ip, 'maxwell::Material', [e, u, s])
    return ip.read(lv), (e, u, s)


def call0(ip, p, lv, name, args=()):
    o = ip.read(lv)
    return ip.call_function(virt(p, o.cls, name, len(args)), [as_arg(ip, a) for a in args], lv)


def mat_values(ip, p, m):
    lv = cell(ip, m)
    return [ip.term(ip._val(call0(ip, p, lv, g))) for g in ('getPermittivity', 'getPermeability', 'getConductivity')]


def pos_materials(*tags):
    pre = TRUE
    for t in tags:
        pre = b_and(pre, b_and(b_le(ONE, sym('eps%s' % t)), b_and(b_le(ONE, sym('mu%s' % t)), b_le(ZERO, sym('sig%s' % t)))))
    return pre


def model_maps(ctx):
    p = ctx.prog(UNITS)
    E = bdr_enum(p)
    ft = ft_enum(p)
    ctx.rule('marker', 'each boundary condition selects exactly the boundary attributes assigned to it, separately for exterior and interior boundaries, and conditions nothing is assigned to select nothing')
    ctx.rule('marker-size', 'a marker has one entry per boundary attribute of the mesh')
    ctx.rule('materials', 'per-attribute coefficient vectors hold each material property at its own attribute and zero elsewhere; vacuum on attribute 1 when no material is given')
    ctx.rule('refusal', 'non-positive attributes and meshes of mixed element types are refused; conditions without a marker are refused')
    ctx.rule('element-map', 'a global element is mapped to the local element with the same centre and to nothing when there is none')
    conds = ['PEC', 'PMC', 'SMA', 'SGBC']
    faces = [(i, i >= 4, (0, 1)) for i in range(8)]
    nb = 8

    def build(ip, mm, gt2b, gt2ib, mats=None, bmats=None, part=False):
        mi = Obj('maxwell::GeomTagToMaterialInfo', None, {'gt2m': const_map(mats or {}), 'gt2bm': const_map(bmats or {})})
        bi = Obj('maxwell::GeomTagToBoundaryInfo', None, {'gt2b': const_map({k: E[v] for k, v in gt2b.items()}), 'gt2ib': const_map({k: E[v] for k, v in gt2ib.items()})})
        mesh = cell(ip, mm.obj())
        pt = Ptr(LV(ip.new_cell(vec([sym('part%d' % i) for i in range(mm.ne)]))), ZERO) if part else NULL
        return construct(ip, 'maxwell::Model', [mesh, mi, bi, pt, sym('comm', None)])
    ctor = find_ctor(p, 'maxwell::Model', 5)

    cases = [({}, {})]
    for c in conds:
        cases += [({2: c}, {}), ({}, {6: c}), ({1: c, 4: c}, {5: c}), ({3: c}, {6: c, 8: c})]
    for perm in ([0, 1, 2, 3], [3, 1, 0, 2], [2, 3, 1, 0], [1, 0, 3, 2]):
        cs = [conds[i] for i in perm]
        cases.append(({1: cs[0], 2: cs[1], 3: cs[2], 4: cs[3]}, {5: cs[1], 6: cs[2], 7: cs[3], 8: cs[0]}))
        cases.append(({1: cs[0], 2: cs[0], 4: cs[1]}, {8: cs[0], 7: cs[2], 5: cs[2]}))
    for (gt2b, gt2ib), part in itertools.product(cases, (False, True)):
        mm = MeshModel(2, list(range(1, nb + 1)), faces=faces, attributes=[1, 2], ne=3)
        ip = ctx.interp(p, models=mm.models())
        m = build(ip, mm, gt2b, gt2ib, part=part)
        label = 'exterior %s interior %s%s' % (gt2b, gt2ib, ', partitioned' if part else '')
        if not ctx.hold('refusal', ip.st.dead is False and ip.st.pc is TRUE, where(ctor), label + ': model refused'):
            continue
        for getter, d in (('getBoundaryToMarker', gt2b), ('getInteriorBoundaryToMarker', gt2ib)):
            mp = keys_of(ip, ip._val(call0(ip, p, m, getter)))
            for c in conds:
                want = [1 if d.get(a) == c else 0 for a in range(1, nb + 1)]
                v = E[c].args[1]
                if v not in mp:
                    ctx.hold('marker', not any(want), where(ctor), '%s: %s has no entry for %s' % (label, getter, c))
                    continue
                if not any(want):
                    # an all-zero marker is as good as none
                    got = [ip.term(x) for x in elements(ip, mp[v])]
                    ctx.hold('marker', all(g is ZERO for g in got), where(ctor), '%s: %s selects %s for %s' % (label, getter, [show(x) for x in got], c))
                    continue
                got = [ip.term(x) for x in elements(ip, mp[v])]
                if ctx.hold('marker-size', len(got) == nb, where(ctor), '%s: marker of %s has %d entries for %d attributes' % (label, c, len(got), nb)):
                    ctx.hold('marker', all(g is num(w) for g, w in zip(got, want)), where(ctor), '%s: %s marks %s instead of %s for %s' % (label, getter, [show(x) for x in got], want, c))
            extra = set(mp) - {E[c].args[1] for c in conds}
            ctx.hold('marker', not extra, where(ctor), '%s: %s has entries for other conditions: %s' % (label, getter, extra))
        for getter, d in (('getGeomTagToBoundaryCond', gt2b), ('getGeomTagToIntBoundaryCond', gt2ib)):
            mp = keys_of(ip, ip._val(call0(ip, p, m, getter)))
            ctx.hold('marker', {k: v for k, v in mp.items()} == {k: E[v] for k, v in d.items()}, where(ctor), '%s: %s returns %s' % (label, getter, {k: show(v) for k, v in mp.items()}))
    # markers handed out for a condition
    for c in conds:
        for interior in (False, True):
            mm = MeshModel(2, list(range(1, nb + 1)), faces=faces, attributes=[1], ne=3)
            ip = ctx.interp(p, models=mm.models())
            d = {2: c, 3: 'PEC' if c != 'PEC' else 'PMC'}
            o = {6: c, 7: 'SMA' if c != 'SMA' else 'PMC'}
            m = build(ip, mm, d, o)
            lv = call0(ip, p, m, 'getMarker', [E[c], TRUE if interior else FALSE])
            got = [ip.term(x) for x in elements(ip, ip._val(lv))]
            dd = o if interior else d
            want = [num(1 if dd.get(a) == c else 0) for a in range(1, nb + 1)]
            ctx.hold('marker', got == want, where(ctor), 'marker of %s condition %s is %s' % ('interior' if interior else 'exterior', c, [show(x) for x in got]))
    # refusals
    for c in ('NearToFarField', 'SurfaceCond'):
        for inner in (0, 1):
            mm = MeshModel(2, list(range(1, nb + 1)), faces=faces, attributes=[1], ne=3)
            ip = ctx.interp(p, models=mm.models())
            build(ip, mm, *(({2: c}, {}) if not inner else ({}, {2: c})))
            ctx.hold('refusal', ip.st.dead, where(ctor), 'a boundary of condition %s is accepted' % c)
    for tag in (0, -1, -7):
        for inner in (0, 1):
            mm = MeshModel(2, list(range(1, nb + 1)), faces=faces, attributes=[1], ne=3)
            ip = ctx.interp(p, models=mm.models())
            build(ip, mm, *(({tag: 'PEC'}, {}) if not inner else ({}, {tag: 'PEC'})))
            ctx.hold('refusal', ip.st.dead, where(ctor), 'boundary attribute %d is accepted' % tag)
    for types in ([2, 2, 3], [2, 3, 2], [3, 2, 2], [4, 4, 4, 5], [5, 5, 5, 5], [2], [3, 3]):
        mm = MeshModel(2, list(range(1, nb + 1)), faces=faces, attributes=[1], ne=len(types), types=types)
        ip = ctx.interp(p, models=mm.models())
        build(ip, mm, {1: 'PEC'}, {})
        ctx.hold('refusal', bool(ip.st.dead) == (len(set(types)) > 1), where(ctor), 'mesh of element types %s is %s' % (types, 'refused' if ip.st.dead else 'accepted'))
    # materials
    for tags in ([], [1], [2], [1, 2, 3], [1, 4], [3, 5]):
        mm = MeshModel(2, list(range(1, nb + 1)), faces=faces, attributes=tags or [1], ne=3)
        ip = ctx.interp(p, models=mm.models())
        vals, mats = {}, {}
        for t in tags:
            mats[t], vals[t] = material(ip, t)
        bm = {}
        if tags:
            bm[7], bv = material(ip, 'b')
        pre = pos_materials(*tags, *(['b'] if tags else []))
        m = build(ip, mm, {1: 'PEC'}, {}, mats, bm)
        if not tags:
            vals = {1: (ONE, ONE, ZERO)}
        label = 'materials on %s' % tags
        if not ctx.hold('materials', not ip.st.dead, where(ctor), label + ': refused'):
            continue
        for k, (g, a) in enumerate((('buildEpsMuPiecewiseVector', [ft['E']]), ('buildEpsMuPiecewiseVector', [ft['H']]), ('buildSigmaPiecewiseVector', []))):
            got = [ip.term(x) for x in elements(ip, ip._val(call0(ip, p, m, g, a)))]
            if ctx.hold('materials', len(got) == max(vals), where(ctor), '%s: %s has %d entries' % (label, g, len(got))):
                for i, x in enumerate(got):
                    ctx.equal('materials', x, vals[i + 1][k] if i + 1 in vals else ZERO, where(ctor), pre=pre, what='%s: %s entry %d' % (label, g, i))
        mp = keys_of(ip, ip._val(call0(ip, p, m, 'getGeomTagToMaterial')))
        ctx.hold('materials', set(mp) == set(vals), where(ctor), '%s: materials are on attributes %s' % (label, sorted(mp)))
        for t in mp:
            if t in vals:
                for a, b, n in zip(mat_values(ip, p, mp[t]), vals[t], ('permittivity', 'permeability', 'conductivity')):
                    ctx.equal('materials', a, b, where(ctor), pre=pre, what='%s: %s of attribute %d' % (label, n, t))
        mp = keys_of(ip, ip._val(call0(ip, p, m, 'getGeomTagToBoundaryMaterial')))
        ctx.hold('materials', set(mp) == set(bm), where(ctor), '%s: boundary materials are on attributes %s' % (label, sorted(mp)))
        for t in mp:
            if t in bm:
                for a, b in zip(mat_values(ip, p, mp[t]), bv):
                    ctx.equal('materials', a, b, where(ctor), pre=pre, what='%s: boundary material of attribute %d' % (label, t))
    # global -> local element numbers by centre
    f = fn(p, 'buildGlobalToPartitionLocalElementMap', 2)
    for dim in (1, 2, 3):
        for sel in ([0, 1, 2, 3], [2, 0], [3], [], [1, 3, 0]):
            base = syms('x', dim)
            cen = [vec([add(b, num(3 * g + d)) for d, b in enumerate(base)]) for g in range(4)]
            ip = ctx.interp(p)
            mp, thr = run(ip, f, [const_map({g: c for g, c in enumerate(cen)}), const_map({l: cen[g] for l, g in enumerate(sel)})])
            got = {k: ip.term(v) for k, v in keys_of(ip, mp).items()}
            ctx.hold('element-map', got == {g: num(l) for l, g in enumerate(sel)}, where(f), '%d-D, local elements %s: %s' % (dim, sel, {k: show(v) for k, v in got.items()}))
    ctx.assumptions.append('mesh of eight boundary attributes; mesh queries behave as named')


# --------------------------------------------- model section of a case file

Z0 = mul(num(Fraction('119.9169832')), PI)
FACES = [(0, False, (0, 0)), (1, False, (1, 1)), (-1, True, (0, 1)), (2, True, (1, 2)), (3, False, (2, 2)), (4, True, (0, 2)), (5, False, (0, 0)), (6, True, (2, 3))]
BDR = [1, 2, 4, 2, 6, 5, 4]        # attribute of each boundary element
INTERIOR = {4, 6}                  # attributes with an interior face


def case_mesh(**k):
    d = dict(dim=2, bdr=BDR, faces=FACES, attributes=[1, 2, 3, 5], ne=4)
    d.update(k)
    return MeshModel(d.pop('dim'), d.pop('bdr'), **d)


def refused(ip):
    """(condition of a reported error, condition of undefined behaviour)"""
    r = u = FALSE
    for pc, T, s in ip.top_throws:
        if str(T).startswith('undefined'):
            u = b_or(u, pc)
        else:
            r = b_or(r, pc)
    return r, u


def model_json(ctx):
    p = ctx.prog(UNITS)
    E = bdr_enum(p)
    f = fn(p, 'buildModel', 3)
    g = fn(p, 'buildSolver', 3)
    ctx.rule('material', 'each material entry reaches exactly its own attributes with its relative permittivity, permeability (one if absent) and conductivity in solver units (zero if absent)')
    ctx.rule('boundary', 'each boundary entry reaches exactly its own attributes with its own condition, as interior boundary exactly when the mesh has an interior face with that attribute')
    ctx.rule('refusal', 'case files without the required sections, with unknown condition words, tags the mesh does not have, unphysical materials or an unknown mesh format end in a reported error; all others are accepted')
    ctx.rule('mesh', 'the mesh file named by the case is loaded, refined as often as requested and distributed over all processes with the computed partition')
    ctx.rule('surface', 'the total-field and thin-layer surfaces handed to the solver are exactly the tagged boundary attributes')

    def go(doc, mm, isTest=TRUE, path='dir/a.json', fun=None, extra=None):
        md = mm.models()
        md.update(extra or {})
        ip = ctx.interp(p, models=md)
        v, thr = run(ip, fun or f, [js(doc), string(path), isTest])
        return ip, v

    def mats(ip, v, getter):
        return keys_of(ip, ip._val(call0(ip, p, cell(ip, v), getter)))

    def s3(i):
        return {'relative_permittivity': sym('eps%s' % i), 'relative_permeability': sym('mu%s' % i), 'bulk_conductivity': sym('sig%s' % i)}
    PROP = [('relative_permittivity', ONE), ('relative_permeability', ONE), ('bulk_conductivity', ZERO)]

    def valof(d):
        return [mul(d.get(k, dv), Z0) if k == 'bulk_conductivity' else d.get(k, dv) for k, dv in PROP]

    def bad_mat(d):
        e, u, s = valof(d)
        return either(b_lt(e, ONE), b_lt(u, ONE), b_lt(s, ZERO))
    B0 = [{'tags': [1], 'type': 'PEC'}]

    def subsets(i):
        ks = [k for k, _ in PROP]
        for n in range(4):
            for c in itertools.combinations(ks, n):
                yield {k: s3(i)[k] for k in c}
    lists = []
    for d in subsets('a'):
        lists.append([dict(d, tags=[1])])
        lists.append([dict(d, tags=[1, 3]), dict(tags=[2])])
    lists.append([dict(s3('a'), tags=[2]), dict(s3('b'), tags=[5, 1]), dict(s3('c'), tags=[3])])
    lists.append([dict(tags=[3]), dict(s3('b'), tags=[1])])
    for ms in lists:
        for part in ('materials', 'boundary material'):
            if part == 'materials':
                doc = {'model': {'filename': 'a.mesh', 'materials': ms, 'boundaries': B0}}
            else:
                bm = [dict(tags=[{1: 1, 2: 4, 3: 2, 5: 6}[t] for t in m['tags']], type='PMC', material={k: v for k, v in m.items() if k != 'tags'}) for m in ms]
                doc = {'model': {'filename': 'a.mesh', 'materials': [{'tags': [1]}], 'boundaries': bm}}
            ip, v = go(doc, case_mesh())
            label = '%s %s' % (part, [sorted(m) for m in ms])
            bad = either(*[bad_mat(m) for m in ms])
            r, u = refused(ip)
            ctx.equal('refusal', r, bad, where(f), what=label + ': refusal condition')
            ctx.equal('refusal', u, FALSE, where(f), what=label + ': undefined behaviour')
            if v is None or ip.st.dead:
                continue
            exp = {}
            src = ms if part == 'materials' else [dict(m['material'], tags=m['tags']) for m in bm]
            for m in src:
                for t in m['tags']:
                    exp.setdefault(t, valof(m))
            mp = mats(ip, v, 'getGeomTagToMaterial' if part == 'materials' else 'getGeomTagToBoundaryMaterial')
            if ctx.hold('material', set(mp) == set(exp), where(f), '%s: attributes %s instead of %s' % (label, sorted(mp), sorted(exp))):
                for t in exp:
                    for a, b, n in zip(mat_values(ip, p, mp[t]), exp[t], PROP):
                        ctx.equal('material', a, b, where(f), pre=b_not(bad), what='%s: %s of attribute %d' % (label, n[0], t))
            if part == 'materials':
                mp = mats(ip, v, 'getGeomTagToBoundaryMaterial')
                ctx.hold('material', not mp, where(f), '%s: unrequested boundary materials on %s' % (label, sorted(mp)))
    # boundaries
    M1 = [{'tags': [1]}]
    words = ['PEC', 'PMC', 'SMA', 'SGBC']
    lay = {'material': {'bulk_conductivity': sym('sg'), 'material_width': sym('w')}}

    def bd(tags, w):
        return dict({'tags': tags, 'type': w}, **(lay if w == 'SGBC' else {}))
    blists = [[bd([t], w)] for t in (1, 2, 4, 5, 6) for w in words]
    blists += [[bd([1, 4], 'PEC'), bd([2], 'PMC'), bd([6, 5], 'SMA')], [bd([4], 'SGBC'), bd([1, 2, 5], 'SMA'), bd([6], 'PMC')],
               [bd([6, 1], 'PMC'), bd([4, 2], 'PMC')], [bd([5], 'SMA'), bd([4], 'PEC'), bd([6], 'SGBC')]]
    for bl in blists:
        ip, v = go({'model': {'filename': 'a.mesh', 'materials': M1, 'boundaries': bl}}, case_mesh())
        label = 'boundaries %s' % [(b['tags'], b['type']) for b in bl]
        r, u = refused(ip)
        sg = any(b['type'] == 'SGBC' for b in bl)
        ctx.equal('refusal', r, b_lt(sym('sg'), ZERO) if sg else FALSE, where(f), what=label + ': refusal condition')
        if v is None or ip.st.dead:
            continue
        want = {t: E[b['type']] for b in bl for t in b['tags']}
        for getter, inner in (('getGeomTagToBoundaryCond', False), ('getGeomTagToIntBoundaryCond', True)):
            mp = {k: ip.term(x) for k, x in mats(ip, v, getter).items()}
            ex = {t: c for t, c in want.items() if (t in INTERIOR) == inner}
            ctx.hold('boundary', mp == ex, where(f), '%s: %s boundaries are %s instead of %s' % (label, 'interior' if inner else 'exterior', {k: show(x) for k, x in mp.items()}, {k: show(x) for k, x in ex.items()}))
        # no boundary material was asked for except by thin layers
    # refusals
    ok = {'filename': 'a.mesh', 'materials': M1, 'boundaries': B0}

    def without(d, k):
        return {a: b for a, b in d.items() if a != k}
    bads = [('no boundaries', without(ok, 'boundaries')), ('no materials', without(ok, 'materials'))]
    for n in (0, 1):
        pad = [{'tags': [2], 'type': 'SMA'}] * n
        bads += [('boundary without tags', dict(ok, boundaries=pad + [{'type': 'PEC'}])), ('boundary with empty tags', dict(ok, boundaries=pad + [{'type': 'PEC', 'tags': []}])),
                 ('boundary without type', dict(ok, boundaries=pad + [{'tags': [1]}])),
                 ('boundary tag beyond the mesh', dict(ok, boundaries=pad + [{'tags': [1, 7], 'type': 'PEC'}])), ('boundary tag zero', dict(ok, boundaries=pad + [{'tags': [0], 'type': 'PEC'}])),
                 ('boundary material on a missing tag', dict(ok, boundaries=pad + [{'tags': [3], 'type': 'PEC', 'material': {}}])),
                 ('thin layer without material', dict(ok, boundaries=pad + [{'tags': [4], 'type': 'SGBC'}]))]
        pad = [{'tags': [2]}] * n
        bads += [('material on a missing tag', dict(ok, materials=pad + [{'tags': [4]}])), ('material on a missing tag', dict(ok, materials=pad + [{'tags': [1, 9]}]))]
    for w in ('', 'pec', 'PEC ', 'SMAX', 'ABC', 'sgbc', 'Pmc'):
        bads.append(('boundary type %r' % w, dict(ok, boundaries=[{'tags': [1], 'type': w}])))
    for n in ('a', 'a.vtk', 'mesh', 'a.mesh.gz', 'a.msh2', 'a.MESH'):
        bads.append(('mesh file %r' % n, dict(ok, filename=n)))
    for label, m in bads:
        ip, v = go({'model': m}, case_mesh())
        r, u = refused(ip)
        ctx.hold('refusal', r is TRUE, where(f), '%s: %s' % (label, 'undefined behaviour' if u is not FALSE else 'accepted' if r is FALSE else 'accepted unless %s' % show(r)))
    w = sym('word', 's')
    ip, v = go({'model': dict(ok, boundaries=[dict({'tags': [1], 'type': w}, **lay)])}, case_mesh())
    ctx.equal('refusal', refused(ip)[0], either(b_not(either(*[b_eq(w, string(x)) for x in words])), b_lt(sym('sg'), ZERO)), where(f), what='refusal over all boundary words')
    # mesh
    for name, stem in (('a.mesh', 'a'), ('a.msh', 'a'), ('caseB.msh', 'caseB'), ('x_2D.mesh', 'x_2D')):
        for lev in (None, 0, 1, 3):
            for test in (True, False):
                mm = case_mesh(procs=3)
                doc = {'model': dict(ok, filename=name)}
                if lev is not None:
                    doc['model']['refinement'] = lev
                ip, v = go(doc, mm, TRUE if test else FALSE, 'some/dir/%s.json' % stem)
                label = 'mesh %s, refinement %s, %s' % (name, lev, 'test' if test else 'launcher')
                r, u = refused(ip)
                if not ctx.hold('mesh', r is FALSE and not ip.st.dead, where(f), label + ' is refused'):
                    continue
                got = ip.term(field(ip, v, 'meshName_'))
                ctx.hold('mesh', got is string(stem), where(f), '%s: model named %s' % (label, show(got)))
                path = './testData/maxwellInputs/%s/%s' % (stem, name) if test else 'some/dir/%s.%s' % (stem, name.rsplit('.', 1)[1])
                ctx.hold('mesh', len(mm.loaded) >= 1 and all(a[0] is string(path) for _, a in mm.loaded), where(f), '%s: loads %s instead of %s' % (label, [show(a[0]) for _, a in mm.loaded], path))
                ctx.hold('mesh', mm.refined == (lev or 0), where(f), '%s: refined %d times' % (label, mm.refined))
                pm = [a for T, a in mm.built if T == 'mfem::ParMesh']
                def uses(a):
                    return any(isinstance(x, Ptr) and isinstance(ip.read(x.lv), Arr) and [ip.term(y) for y in elements(ip, ip.read(x.lv))] == [sym('part%d' % i) for i in range(mm.ne)] for x in a)
                ctx.hold('mesh', mm.partn is num(3) and len(pm) >= 1 and all(uses(a) for a in pm), where(f),
                         '%s: the distributed mesh does not use the partition computed for the number of processes' % label)
    # surfaces handed to the solver
    pw = dict(type='planewave', polarization=[ZERO, ZERO, ONE], propagation=[ONE, ZERO, ZERO], magnitude=dict(type='gaussian', spread=sym('s'), mean=[ZERO, ZERO, ZERO]))
    dp = dict(type='dipole', magnitude=dict(length=sym('L'), spread=sym('s'), mean=sym('m')))
    ini = dict(type='initial', field_type='electric', center=[ZERO, ZERO], polarization=[ZERO, ZERO, ONE], dimension=2, magnitude=dict(type='gaussian', spread=sym('s')))
    for srcs, tags in (([ini], []), ([dict(pw, tags=[4])], [4]), ([dict(dp, tags=[6, 4])], [4, 6]), ([ini, dict(pw, tags=[6])], [6]), ([dict(pw, tags=[4]), ini], [4]), ([dict(pw, tags=[9])], []), ([dict(pw, tags=[6, 3])], [6])):
        for bl in ([bd([1], 'PEC')], [bd([4], 'SGBC'), bd([1], 'SMA')], [bd([1], 'SMA'), bd([6], 'SGBC'), bd([4], 'SGBC')], [bd([6, 4], 'SGBC')]):
            mm = case_mesh()
            doc = {'model': dict(ok, boundaries=bl), 'sources': srcs, 'solver_options': {'evolution_operator': 'global'}, 'probes': {}}
            ip, v = go(doc, mm, fun=g, extra={'MPI_Allreduce': reduce_one})
            label = 'sources %s, boundaries %s' % ([(s['type'], s.get('tags')) for s in srcs], [(b['tags'], b['type']) for b in bl])
            r, u = refused(ip)
            if not hasattr(mm, 'solver'):
                ctx.bad('surface', where(g), label + ': no solver is built')
                continue
            m = [x for x in (ip.read(a) if isinstance(a, LV) else a for a in mm.solver) if isinstance(x, Obj) and x.cls == 'maxwell::Model']
            if not m:
                raise AnalysisError('the solver is not given the model')
            for getter, key, tg in (('getTotalFieldScatteredFieldToMarker', 'TotalFieldIn', tags), ('getSGBCToMarker', 'SGBC', sorted(t for b in bl if b['type'] == 'SGBC' for t in b['tags']))):
                mp = mats(ip, m[0], getter)
                want = [1 if a in tg else 0 for a in range(1, 7)]
                k = E[key].args[1]
                if not tg:
                    ctx.hold('surface', k not in mp or all(ip.term(x) is ZERO for x in elements(ip, mp[k])), where(g), '%s: a %s surface without tags' % (label, key))
                    continue
                if not ctx.hold('surface', k in mp, where(g), '%s: no %s surface' % (label, key)):
                    continue
                got = [ip.term(x) for x in elements(ip, mp[k])]
                ctx.hold('surface', got == [num(x) for x in want], where(g), '%s: %s surface marks %s instead of %s' % (label, key, [show(x) for x in got], want))
    # centred absorbing boundaries are refused with the nodal operator only
    al = sym('al')
    for op in ('hesthaven', 'global', 'maxwell'):
        for w in ('SMA', 'PEC'):
            mm = case_mesh()
            ip, v = go({'model': dict(ok, boundaries=[bd([1], w)]), 'sources': [ini], 'solver_options': {'evolution_operator': op, 'upwind_alpha': al}, 'probes': {}}, mm, fun=g)
            ctx.equal('refusal', refused(ip)[0], b_eq(al, ZERO) if op == 'hesthaven' and w == 'SMA' else FALSE, where(g), what='operator %s, boundary %s: refusal condition' % (op, w))
    ctx.assumptions.append('mesh of seven boundary elements with five attributes; JSON and mesh queries behave as named; one total-field source per case')


# ------------------------------------------------------- thin-layer sections

EPS0 = num(Fraction('8.8541878188e-12'))
MU0 = mul(num(Fraction('4e-7')), PI)
CSI = num(299792458)


def layer_spec(L, fmax):
    """required (material values, width, order, segments, skin depths)"""
    e, u, s, w = L.get('relative_permittivity', ONE), L.get('relative_permeability', ONE), L['bulk_conductivity'], L['material_width']
    esi, usi = mul(e, EPS0), mul(u, MU0)
    pos = b_lt(ZERO, s)
    pe = ite(pos, div(s, mul(fmax, esi)), ZERO)
    order = ite(b_lt(num(100), pe), num(2), ite(b_and(b_lt(pe, num(Fraction('0.1'))), b_lt(s, num(Fraction('1e-3')))), num(4), num(3)))
    perlam = ite(b_lt(num(100), pe), num(10), ite(b_and(b_lt(pe, num(Fraction('0.1'))), b_lt(s, num(Fraction('1e-3')))), num(5), num(7)))
    lam = div(ONE, mul(fmax, f_sqrt(mul(usi, esi))))
    skin = div(ONE, f_sqrt(mul(PI, mul(fmax, mul(usi, s)))))
    dx = ite(pos, f_minmax('min', div(lam, perlam), div(skin, num(2))), div(lam, perlam))
    seg = f_minmax('min', num(1000), f_minmax('max', num(4), mk('app', ('ceil', div(w, dx)), 'n')))
    if 'order' in L:
        order = L['order']
    if 'num_of_segments' in L:
        seg = L['num_of_segments']
    return [e, u, mul(s, Z0)], w, order, seg, ite(pos, div(w, skin), ZERO)


def layers_json(ctx):
    p = ctx.prog(UNITS)
    E = bdr_enum(p)
    f = fn(p, 'buildModel', 3)
    ctx.rule('layer', 'each thin-layer entry carries its own tags and, layer by layer in order, its own material (solver units) and width')
    ctx.rule('auto', 'without explicit values, order and segment count resolve wavelength and half a skin depth at the highest source frequency, within 4 and 1000 segments; explicit values win')
    ctx.rule('ends', 'the terminations of the layer follow the words given at boundary level, or at material level when the boundary gives none')
    ctx.rule('refusal', 'layers without conductivity, width or material, unphysical layers and unknown termination words are refused, everything else is accepted')
    ok = {'filename': 'a.mesh', 'materials': [{'tags': [1]}]}

    def go(bl, sources=None):
        mm = case_mesh()
        ip = ctx.interp(p, models=mm.models())
        doc = {'model': dict(ok, boundaries=bl)}
        if sources is not None:
            doc['sources'] = sources
        v, thr = run(ip, f, [js(doc), string('d/a.json'), TRUE])
        return ip, v

    def S(n, i=''):
        return sym(n + str(i))

    def L(i='', *opt):
        d = {'bulk_conductivity': S('sg', i), 'material_width': S('w', i)}
        for o in opt:
            d[o] = {'relative_permittivity': S('ep', i), 'relative_permeability': S('mu', i), 'num_of_segments': trunc(S('ns', i)), 'order': trunc(S('or', i))}[o]
        return d

    def bad(d):
        return either(b_lt(d.get('relative_permittivity', ONE), ONE), b_lt(d.get('relative_permeability', ONE), ONE), b_lt(d['bulk_conductivity'], ZERO))
    OFF = ('SMA', False)

    def compare(bl, exp, label, sources=None, fmax=num(10 ** 9), pre=TRUE):
        """exp: list of (tags, layers, left, right)"""
        ip, v = go(bl, sources)
        r, u = refused(ip)
        cond = either(*[bad(l) for _, ls, _, _ in exp for l in ls])
        ctx.equal('refusal', r, cond, where(f), what=label + ': refusal condition', pre=pre)
        ctx.equal('refusal', u, FALSE, where(f), what=label + ': undefined behaviour', pre=pre)
        if v is None or ip.st.dead:
            return
        pre = b_and(pre, b_not(cond))
        for _, ls, _, _ in exp:
            for l in ls:
                pre = b_and(pre, b_lt(ZERO, l['material_width']))
        props = elements(ip, ip._val(call0(ip, p, cell(ip, v), 'getSGBCProperties')))
        if not ctx.hold('layer', len(props) == len(exp), where(f), '%s: %d thin-layer boundaries instead of %d' % (label, len(props), len(exp))):
            return
        for n, (pr, (tags, ls, left, right)) in enumerate(zip(props, exp)):
            got = [ip.term(x) for x in elements(ip, field(ip, pr, 'geom_tags'))]
            ctx.hold('layer', got == [num(t) for t in tags], where(f), '%s: tags %s' % (label, [show(x) for x in got]))
            lay = elements(ip, field(ip, pr, 'layers'))
            if not ctx.hold('layer', len(lay) == len(ls), where(f), '%s: %d layers instead of %d' % (label, len(lay), len(ls))):
                continue
            specs = []
            for k, (got, want) in enumerate(zip(lay, ls)):
                mat, w, order, seg, nsk = layer_spec(want, fmax)
                specs.append((w, seg, order))
                for a, b, nm in zip(mat_values(ip, p, field(ip, got, 'material')), mat, ('permittivity', 'permeability', 'conductivity')):
                    ctx.equal('layer', a, b, where(f), pre=pre, what='%s: %s of layer %d' % (label, nm, k))
                ctx.equal('layer', ip.term(field(ip, got, 'width')), w, where(f), pre=pre, what='%s: width of layer %d' % (label, k))
                ctx.equal('auto', ip.term(field(ip, got, 'order')), order, where(f), pre=pre, what='%s: order of layer %d' % (label, k))
                ctx.equal('auto', ip.term(field(ip, got, 'num_of_segments')), seg, where(f), pre=pre, what='%s: segments of layer %d' % (label, k))
                ctx.equal('auto', ip.term(field(ip, got, 'n_skin_depths')), nsk, where(f), pre=pre, what='%s: skin depths of layer %d' % (label, k))
            # derived totals of the stack
            lv = cell(ip, pr)
            tw = ts = ZERO
            mo = ONE
            for w, sg, o in specs:
                tw, ts, mo = add(tw, w), add(ts, sg), f_minmax('max', mo, o)
            if len(specs) == 1 or all('order' in l and 'num_of_segments' in l for l in ls):
                for nm, want in (('totalWidth', tw), ('totalSegments', ts), ('maxOrder', mo)):
                    ctx.equal('layer', ip.term(ip._val(call0(ip, p, lv, nm))), want, where(f), pre=pre, what='%s: %s of the stack' % (label, nm))
            info = field(ip, pr, 'sgbc_bdr_info')
            for side, (word, on) in (('first', left), ('second', right)):
                b = field(ip, info, side)
                ctx.equal('ends', ip.term(field(ip, b, 'isOn')), TRUE if on else FALSE, where(f), pre=pre, what='%s: %s termination present' % (label, side))
                if on:
                    ctx.equal('ends', ip.term(field(ip, b, 'bdrCond')), E[word], where(f), pre=pre, what='%s: %s termination' % (label, side))

    def bd(tags, **k):
        return dict({'tags': tags, 'type': 'SGBC'}, **k)
    opts = ['relative_permittivity', 'relative_permeability', 'num_of_segments', 'order']
    for n in range(5):
        for c in itertools.combinations(opts, n):
            l = L('', *c)
            compare([bd([4], material=l)], [([4], [l], OFF, OFF)], 'single layer with %s' % list(c))
    l1, l2, l3 = L(1, *opts), L(2), L(3, 'relative_permittivity')
    compare([bd([4, 6], layers=[l1, l2])], [([4, 6], [l1, l2], OFF, OFF)], 'two layers')
    la, lb, lc = L(1, *opts), L(2, *opts), L(3, *opts)
    compare([bd([4], layers=[la, lb, lc])], [([4], [la, lb, lc], OFF, OFF)], 'three explicit layers')
    compare([bd([4], layers=[l1])], [([4], [l1], OFF, OFF)], 'one layer in a list')
    compare([{'tags': [1], 'type': 'PEC'}, bd([6], material=l2), {'tags': [2], 'type': 'SMA'}, bd([4], layers=[l3, l1])],
            [([6], [l2], OFF, OFF), ([4], [l3, l1], OFF, OFF)], 'two thin-layer boundaries')
    compare([{'tags': [1], 'type': 'PEC'}], [], 'no thin layer')
    # terminations
    W = ('PEC', 'PMC', 'SMA')
    ends = [{'left': a} for a in W] + [{'right': a} for a in W] + [{'left': a, 'right': b} for a in W for b in W] + [{}]
    for e in ends:
        lr = tuple((e[k], True) if k in e else OFF for k in ('left', 'right'))
        compare([bd([4], material=l2, sgbc_boundaries=e)], [([4], [l2]) + lr], 'terminations %s at the boundary' % e)
        compare([bd([4], layers=[l2], sgbc_boundaries=e)], [([4], [l2]) + lr], 'terminations %s at the boundary of a list' % e)
        compare([bd([4], material=dict(l2, sgbc_boundaries=e))], [([4], [l2]) + lr], 'terminations %s at the material' % e)
    o = {'left': 'SMA', 'right': 'SMA'}
    for e in ({'left': 'PEC', 'right': 'PMC'}, {'left': 'PEC'}, {'right': 'PMC'}):
        lr = tuple((e[k], True) if k in e else OFF for k in ('left', 'right'))
        compare([bd([4], material=dict(l2, sgbc_boundaries=o), sgbc_boundaries=e)], [([4], [l2]) + lr], 'terminations %s at the boundary win' % e)
    compare([bd([4], material=l2, sgbc_boundaries={'left': 'PEC'}), bd([6], material=l3)], [([4], [l2], ('PEC', True), OFF), ([6], [l3], OFF, OFF)], 'terminations do not leak to the next boundary')
    # highest frequency
    pw = dict(type='planewave', polarization=[ONE], propagation=[ONE], tags=[4])

    def mod(i):
        return dict(pw, magnitude=dict(spread=S('s', i), frequency=S('fr', i)))

    def gau(i):
        return dict(pw, magnitude=dict(type='gaussian', spread=S('s', i)))

    def edge(i):
        return add(S('fr', i), div(CSI, mul(num(2), S('s', i))))
    pos = b_and(b_lt(ZERO, S('s', 1)), b_and(b_lt(ZERO, S('s', 2)), b_and(b_le(ZERO, S('fr', 1)), b_le(ZERO, S('fr', 2)))))
    for i in (1, 2):
        pos = b_and(pos, b_lt(S('s', i), num(1000)))
    mx = lambda a, b: f_minmax('max', a, b)
    freqs = [('no source list', None, num(10 ** 9)), ('no sources', [], num(10 ** 9)), ('modulated pulse', [mod(1)], edge(1)), ('two modulated pulses', [mod(1), mod(2)], mx(edge(1), edge(2))),
             ('typed modulated pulse', [dict(pw, magnitude=dict(type='modulated', spread=S('s', 1), frequency=S('fr', 1)))], edge(1)),
             ('gaussian pulse', [gau(1)], div(CSI, mul(num(2), S('s', 1)))), ('two gaussian pulses', [gau(1), gau(2)], div(CSI, mul(num(2), f_minmax('min', S('s', 1), S('s', 2)))))]
    for label, src, fm in freqs:
        compare([bd([4], material=l3)], [([4], [l3], OFF, OFF)], label, src, fm, pos)
    # refusals
    for miss in ('bulk_conductivity', 'material_width'):
        l = {k: v for k, v in L('', *opts).items() if k != miss}
        for form, bl in (('single', [bd([4], material=l)]), ('list', [bd([4], layers=[l2, l])]), ('second boundary', [bd([4], material=l2), bd([6], material=l)])):
            ip, v = go(bl)
            r, u = refused(ip)
            ctx.hold('refusal', b_or(r, FALSE) is TRUE or ip.st.dead and u is FALSE, where(f), 'layer without %s (%s) is accepted' % (miss, form))
    ip, v = go([bd([4])])
    ctx.hold('refusal', refused(ip)[0] is TRUE, where(f), 'thin layer without material is accepted')
    for side in ('left', 'right'):
        for w in ('', 'SGBC', 'pec', 'ABC', 'PMC '):
            ip, v = go([bd([4], material=l2, sgbc_boundaries={side: w})])
            ctx.hold('refusal', ip.st.dead, where(f), 'termination %r is accepted' % w)
    ctx.assumptions.append('JSON and mesh queries behave as named; sources of one kind when the highest frequency is derived from them; positive spreads and widths')


# ------------------------------------------------ constrained partitioning

def leaves(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            st += [x.args[1], x.args[2]]
        else:
            yield x


def partitioning(ctx):
    p = ctx.prog(UNITS)
    f = fn(p, 'buildModel', 3)
    ctx.rule('together', 'both elements of every face of a total-field or thin-layer surface end on the same process')
    ctx.rule('range', 'every element ends on an existing process')
    ctx.rule('untouched', 'elements away from these surfaces, and every element when there is no such surface or only one process, stay where the partitioner put them')
    graphs = {
        'single face': [(0, 1)],
        'chain': [(0, 1), (1, 2), (2, 3)],
        'chain, reversed': [(3, 2), (2, 1), (1, 0)],
        'star': [(2, 0), (2, 1), (2, 3), (2, 4)],
        'star, inverted': [(4, 1), (0, 1), (3, 1)],
        'two groups': [(0, 1), (3, 4)],
        'two groups joined last': [(0, 1), (3, 4), (1, 3)],
        'ring': [(0, 1), (1, 2), (2, 5), (5, 0)],
        'tree': [(5, 3), (4, 2), (3, 2), (1, 0), (0, 5)],
        'repeated': [(1, 4), (1, 4), (4, 1)],
        'three groups': [(0, 5), (1, 4), (2, 3)],
    }
    ne = 6
    kinds = [('total field', [4], []), ('dipole', [4], []), ('thin layer', [], [4]), ('both', [4], [6]), ('two tags', [4, 6], []), ('none', [], [])]
    for gname, pairs in graphs.items():
        for kind, tf, sg in kinds:
            for procs in (1, 2, 3, 5):
                for ranks in ([(i * 7 + 1) % procs for i in range(ne)], [0] * ne, [min(i, procs - 1) for i in range(ne)], 'sym'):
                    if ranks == 'sym':
                        if procs > 3 or len(pairs) > 4:
                            continue
                        rk = [sym('part%d' % i) if i in (pairs[0][0], 3) else num(i % procs) for i in range(ne)]
                    else:
                        rk = [num(x) for x in ranks]
                    # boundary elements: alternate the two tags over the faces; plus an exterior one and an untagged interior one
                    bdr = [4 if i % 2 == 0 or not (sg and tf or len(tf) > 1) else 6 for i in range(len(pairs))] + [1, 4, 5, 6]
                    faces = [(i, True, pr) for i, pr in enumerate(pairs)] + [(len(pairs), False, (5, 5)), (len(pairs) + 1, False, (2, 2)), (len(pairs) + 2, True, (0, 5)), (-1, True, (1, 5)), (len(pairs) + 3, False, (3, 3))]
                    mm = MeshModel(2, bdr, faces=faces, attributes=[1], ne=ne, procs=procs, part=rk)
                    ip = ctx.interp(p, models=mm.models())
                    bl = [{'tags': [1], 'type': 'PEC'}]
                    if sg:
                        bl.append({'tags': sg, 'type': 'SGBC', 'material': {'bulk_conductivity': ONE, 'material_width': ONE}})
                    doc = {'model': {'filename': 'a.mesh', 'materials': [{'tags': [1]}], 'boundaries': bl}}
                    if tf:
                        doc['sources'] = [dict(type='dipole' if kind == 'dipole' else 'planewave', tags=tf if n == 0 else tf[::-1]) for n in range(1)]
                    v, thr = run(ip, f, [js(doc), string('d/a.json'), TRUE])
                    label = '%s, %s, %d processes, initially %s' % (gname, kind, procs, [show(x) for x in rk])
                    if thr is TRUE:
                        raise AnalysisError('the model is refused: ' + label)
                    # the partition the distributed mesh is built with
                    pm = [a for T, a in mm.built if T == 'mfem::ParMesh']
                    pt = [x for a in pm for x in a if isinstance(x, Ptr)]
                    pt = [ip.read(x.lv) for x in pt]
                    pt = [x for x in pt if isinstance(x, Arr) and x.size is num(ne)]
                    if not pt:
                        raise AnalysisError('the partition of the distributed mesh is not understood')
                    out = [ip.term(x) for x in elements(ip, pt[-1])]
                    tags = set(tf) | set(sg)
                    con = [pr for i, pr in enumerate(pairs) if bdr[i] in tags]
                    if procs == 1:
                        con_ = []
                    else:
                        con_ = con
                    for a, b in con_:
                        ctx.equal('together', out[a], out[b], where(f), what='%s: elements %d and %d' % (label, a, b))
                    adj = {x for pr in con_ for x in pr}
                    for e in range(ne):
                        if e not in adj:
                            ctx.hold('untouched', out[e] is rk[e], where(f), '%s: element %d moves to %s' % (label, e, show(out[e])))
                        else:
                            bad = [show(x) for x in leaves(out[e]) if not is_num(x) or not 0 <= val(x) < procs]
                            ctx.hold('range', not bad, where(f), '%s: element %d ends on process %s' % (label, e, bad))
    ctx.assumptions.append('meshes of six elements with up to five constrained faces (all shapes of coupling: chains, stars, rings, trees, several groups), 1 to 5 processes')


CHECKS = {'P07': model_maps, 'P11': model_json, 'P12': layers_json, 'P13': partitioning}
