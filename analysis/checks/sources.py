"""Excitations: analytic waveforms, plane waves, dipole, initial fields, ownership."""
from fw import *
from terms import *

UNITS = ['src/components/Sources.cpp', 'src/components/Spherical.cpp']
NS = 'maxwell::'


def ft_enum(p):
    e = dict(p.enum.get('maxwell::FieldType', []))
    if set(e) != {'E', 'H'}:
        raise AnalysisError('field type enumeration not found')
    return {k: enumc('maxwell::FieldType::' + k, v) for k, v in e.items()}


def opaque_fn(ip, T='maxwell::Function', name='f'):
    return Obj(T, sym(name, None), {})


def feval(name, args):
    """value of an arbitrary waveform object at a position"""
    return mk('app', ('m:eval', sym(name, None), vec_term(args)), 'n')


def vec_term(ts):
    a = []
    prs = sorted([(num(i), t) for i, t in enumerate(ts)], key=lambda x: x[0].id)
    for k, t in prs:
        a += [k, t]
    return mk('app', ('arr', string('seq'), num(len(ts))) + tuple(a), 'v')


def cross(a, b):
    return [sub(mul(a[(i + 1) % 3], b[(i + 2) % 3]), mul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)]


def norm(v):
    s = ZERO
    for x in v:
        s = add(s, mul(x, x))
    return f_sqrt(s)


def dot(a, b):
    s = ZERO
    for x, y in zip(a, b):
        s = add(s, mul(x, y))
    return s


def syms(base, n):
    return [sym('%s%d' % (base, i)) for i in range(n)]


# ------------------------------------------------------------- plane waves

def planewave(ctx):
    p = ctx.prog(UNITS)
    ft = ft_enum(p)
    ctx.rule('plane-wave', 'value of the plane wave for (position, time, field, direction) equals the transverse wave f(k.r/c - t) with the paired field along k x p (electric polarisation) or p x k (magnetic polarisation), unit vectors')
    cls = NS + 'Planewave'
    ev = method(p, cls, 'eval', 4)
    pol, prop = syms('p', 3), syms('k', 3)
    np_, nk = norm(pol), norm(prop)
    ph = [div(x, np_) for x in pol]
    kh = [div(x, nk) for x in prop]
    for kind in ('direct', 'cloned', 'as-source', 'as-source-clone'):
        for pf in 'EH':
            for dim in (1, 2, 3):
                for of in 'EH':
                    for d in range(3):
                        if kind != 'direct' and (dim != 3 or d != 0) and kind != 'as-source':
                            continue
                        if kind == 'as-source' and d != 1:
                            continue
                        ip = ctx.interp(p)
                        w = construct(ip, cls, [opaque_fn(ip), vec(pol), vec(prop), ft[pf]])
                        f, this = ev, w
                        if kind == 'cloned':
                            c = ip.call_function(method(p, cls, 'clone', 0), [], w)
                            this = ip.deref(c)
                        if kind.startswith('as-source'):
                            this = construct(ip, NS + 'TotalField', [w])
                            f = method(p, NS + 'TotalField', 'eval', 4)
                            if kind.endswith('clone'):
                                this = ip.deref(ip.call_function(method(p, NS + 'TotalField', 'clone', 0), [], this))
                        if ip.st.dead:
                            raise AnalysisError('constructing a plane wave always fails')
                        pos = syms('r', dim)
                        pc = ip.st.pc
                        v = outcome(ip, f, [vec(pos), sym('t'), ft[of], num(d)], this)
                        arg = sub(dot(pos, kh[:dim]), sym('t'))
                        amp = ph[d] if pf == of else (cross(kh, ph)[d] if pf == 'E' else cross(ph, kh)[d])
                        want = mul(feval('f', [arg]), amp)
                        ctx.equal('plane-wave', v, want, where(ev), what='%s wave polarised in %s, %s component %d, %d-D position, %s' % (kind, pf, of, d, dim, kind), pre=pc)
    # the copy refuses unnormalised vectors only: normalised input never throws
    ctx.assumptions.append('waveform objects are deterministic functions of the position they are given')
    ctx.assumptions.append('real arithmetic; polarisation and propagation vectors are non-zero')


# ------------------------------------------------------------- initial field

def initial_field(ctx):
    p = ctx.prog(UNITS)
    ft = ft_enum(p)
    cls = NS + 'InitialField'
    ev = method(p, cls, 'eval', 4)
    ctx.rule('initial-field', 'initial field value = (field matches) ? f(position - centre) * polarisation[d] : 0, at every time')
    ctx.rule('initial-copy', 'a copy or clone of an initial field evaluates identically')
    for kind in ('direct', 'copy', 'clone'):
        for sf in 'EH':
            for dim in (1, 2, 3):
                for of in 'EH':
                    for d in range(3):
                        ip = ctx.interp(p)
                        pol, cen, pos = syms('p', 3), syms('c', dim), syms('r', dim)
                        w = construct(ip, cls, [opaque_fn(ip), ft[sf], vec(pol), vec(cen)])
                        if kind == 'clone':
                            w = ip.deref(ip.call_function(method(p, cls, 'clone', 0), [], w))
                        if kind == 'copy':
                            cc = [f for f in p.fn.values() if f.get('cls') == cls and f.get('ctor') and f.get('copy') == 1]
                            if cc and cc[0].get('body') is not None and not cc[0].get('defaulted'):
                                n = cell(ip, Obj(cls, None, {}))
                                ip.call_function(cc[0], [w], n)
                                w = n
                        v = outcome(ip, ev, [vec(pos), sym('t'), ft[of], num(d)], w)
                        want = mul(feval('f', [sub(a, b) for a, b in zip(pos, cen)]), pol[d]) if sf == of else ZERO
                        ctx.equal('initial-field' if kind == 'direct' else 'initial-copy', v, want, where(ev), what='source in %s, asked %s component %d, %d-D, %s' % (sf, of, d, dim, kind), pre=ip.st.pc)
    ctx.assumptions.append('the centre has at least as many coordinates as the position')


# ---------------------------------------------------------------- waveforms

def waveforms(ctx):
    p = ctx.prog(UNITS)
    ctx.rule('waveform', 'closed form of the waveform as a function of position and parameters')
    ctx.rule('waveform-clone', 'a clone evaluates to the same closed form')
    s, fr = sym('s'), sym('fr')

    def go(cls, args, dims, want, what):
        full = NS + cls
        ev = method(p, full, 'eval')
        for kind in ('direct', 'clone'):
            ip = ctx.interp(p)
            o = construct(ip, full, args)
            if kind == 'clone':
                o = ip.deref(ip.call_function(method(p, full, 'clone', 0), [], o))
            pos = syms('r', dims)
            a = [vec(pos)] + ([sym('t')] if len(ev['params']) == 2 else [])
            v = outcome(ip, ev, a, o)
            ctx.equal('waveform' if kind == 'direct' else 'waveform-clone', v, want(pos), where(ev), what='%s %s' % (cls, what), pre=ip.st.pc)
    for dim in (1, 2, 3):
        for extra in range(0, 4 - dim):
            m = syms('m', dim)

            def g(pos, m=m, dim=dim):
                q = ZERO
                for i in range(dim):
                    q = add(q, power(sub(pos[i], m[i]), 2))
                return f_exp(neg(div(q, mul(num(2), mul(s, s)))))
            go('Gaussian', [s, vec(m), num(dim)], dim + extra, g, '%d-D' % dim)
    m = syms('m', 1)

    def mg(pos):
        x = sub(pos[0], m[0])
        return mul(f_exp(neg(div(mul(x, x), mul(num(2), mul(s, s))))), f_cos(mul(mul(num(2), PI), mul(fr, x))))
    go('ModulatedGaussian', [s, vec(m), fr, num(1)], 1, mg, '1-D')
    for dim in (1, 2, 3):
        md = syms('n', dim)

        def sm(pos, md=md):
            r = ONE
            for a, b in zip(md, pos):
                r = mul(r, f_sin(mul(mul(a, PI), b)))
            return r
        go('SinusoidalMode', [vec(md)], dim, sm, '%d-D' % dim)
    # cavity solutions: time functions
    md, bx = syms('n', 2), syms('L', 2)
    w = mul(PI, f_sqrt(add(power(div(md[0], bx[0]), 2), power(div(md[1], bx[1]), 2))))
    kx, ky = div(mul(md[0], PI), bx[0]), div(mul(md[1], PI), bx[1])
    ct = f_cos(mul(w, sym('t')))

    def tm(which):
        def f(pos):
            sx, sy = f_sin(mul(kx, pos[0])), f_sin(mul(ky, pos[1]))
            cx, cy = f_cos(mul(kx, pos[0])), f_cos(mul(ky, pos[1]))
            if which == 0:
                return mul(ct, mul(sx, sy))
            if which == 1:
                return mul(div(kx, w), mul(ct, mul(cx, sy)))
            return mul(div(ky, w), mul(ct, mul(sx, cy)))
        return f
    for i, c in enumerate(('TM2DSinusoidalMode', 'TM2D_Dx_SinusoidalMode', 'TM2D_Dy_SinusoidalMode')):
        if NS + c in p.rec:
            go(c, [vec(md), vec(bx)], 2, tm(i), '2-D')
    # resonant circular / spherical modes
    for cls in ('BesselJ6',):
        full = NS + cls
        ev = method(p, full, 'eval')
        ip = ctx.interp(p)
        o = cell(ip, ip.default_value(full))
        pos = syms('r', 2)
        v = outcome(ip, ev, [vec(pos)], o)
        al = num(Fraction('13.589290170541217'))
        want = mul(mk('app', ('f:jn', num(6), mul(al, norm(pos))), 'n'), f_cos(mul(num(6), mk('app', ('atan2', pos[1], pos[0]), 'n'))))
        ctx.equal('waveform', v, want, where(ev), what=cls)
    full = NS + 'SphericalBesselJ6'
    ev = method(p, full, 'eval')
    ip = ctx.interp(p)
    o = cell(ip, ip.default_value(full))
    pos = syms('r', 3)
    v = outcome(ip, ev, [vec(pos)], o)
    r = norm(pos)
    j6 = mk('app', ('f:gsl_sf_bessel_jl', num(6), mul(al, r)), 'n')
    P = mk('app', ('f:gsl_sf_legendre_sphPlm', num(6), num(6), f_cos(f_un('acos', div(pos[2], r)))), 'n')
    want = ite(b_eq(r, ZERO), ZERO, mul(mul(j6, P), f_cos(mul(num(6), mk('app', ('atan2', pos[1], pos[0]), 'n')))))
    ctx.equal('waveform', v, want, where(ev), what='SphericalBesselJ6')
    ctx.assumptions.append('real arithmetic; Bessel and Legendre routines of the maths libraries are taken as given')


CHECKS = {'P01': planewave, 'P02': initial_field, 'P03': waveforms}


# ------------------------------------------------------------------- dipole

def dipole(ctx):
    from calc import D
    p = ctx.prog(UNITS)
    ft = ft_enum(p)
    cls = NS + 'DerivGaussDipole'
    ev = method(p, cls, 'eval', 4)
    ctx.rule('dipole-maxwell', 'extracted closed forms satisfy dE/dt = curl H and dH/dt = -curl E away from the origin (symbolic derivatives)')
    ctx.rule('dipole-field', 'extracted closed forms equal the field of a z-directed electric dipole with retarded Gaussian moment')
    L, s, m, t = sym('L'), sym('s'), sym('m'), sym('t')
    doms = {'s': [0.7, 1.1, 1.6], 'L': [0.3, 0.8], 'm': [0.5, 1.0], 't': [0.2, 0.9, 1.7]}
    pos = syms('r', 3)
    F = {}
    for kind in ('direct', 'clone', 'source'):
        for f in 'EH':
            for d in range(3):
                ip = ctx.interp(p)
                o = construct(ip, cls, [L, s, m])
                fn = ev
                if kind == 'clone':
                    o = ip.deref(ip.call_function(method(p, cls, 'clone', 0), [], o))
                if kind == 'source':
                    o = construct(ip, NS + 'TotalField', [o])
                    fn = method(p, NS + 'TotalField', 'eval', 4)
                v = outcome(ip, fn, [vec(pos), t, ft[f], num(d)], o)
                if kind == 'direct':
                    F[f, d] = v
                    R = norm(pos)
                    w2 = mul(s, f_sqrt(num(2)))
                    u = div(sub(sub(t, m), R), w2)
                    P0 = mul(div(mul(w2, f_exp(ONE)), num(2)), f_exp(neg(mul(u, u))))
                    P1 = div(mul(num(-2), mul(P0, u)), w2)
                    P2 = sub(div(mul(num(-2), mul(P1, u)), w2), div(mul(num(2), P0), mul(w2, w2)))
                    ct, rho = div(pos[2], R), f_sqrt(add(mul(pos[0], pos[0]), mul(pos[1], pos[1])))
                    st = div(rho, R)
                    i4 = div(ONE, mul(num(4), PI))
                    er = mul(mul(L, i4), mul(mul(num(2), ct), add(div(P0, power(R, 3)), div(P1, power(R, 2)))))
                    et = mul(mul(L, i4), mul(st, add(add(div(P0, power(R, 3)), div(P1, power(R, 2))), div(P2, R))))
                    hp = mul(mul(L, i4), mul(st, add(div(P2, R), div(P1, power(R, 2)))))
                    cp, sp = div(pos[0], rho), div(pos[1], rho)
                    if f == 'E':
                        want = [mul(cp, add(mul(st, er), mul(ct, et))), mul(sp, add(mul(st, er), mul(ct, et))), sub(mul(ct, er), mul(st, et))][d]
                    else:
                        want = [neg(mul(sp, hp)), mul(cp, hp), ZERO][d]
                    ctx.equal('dipole-field', v, want, where(ev), doms, what='%s component %d' % (f, d))
                else:
                    ctx.equal('dipole-field', v, F[f, d], where(ev), doms, what='%s %s component %d' % (kind, f, d))
    for d in range(3):
        a, b = (d + 1) % 3, (d + 2) % 3
        curlH = sub(D(F['H', b], pos[a]), D(F['H', a], pos[b]))
        curlE = sub(D(F['E', b], pos[a]), D(F['E', a], pos[b]))
        ctx.equal('dipole-maxwell', D(F['E', d], t), curlH, where(ev), doms, what='dE%d/dt = curl H' % d)
        ctx.equal('dipole-maxwell', D(F['H', d], t), neg(curlE), where(ev), doms, what='dH%d/dt = -curl E' % d)
    ctx.assumptions.append('observation point off the dipole axis and away from the origin; normalised vacuum (c = eps0 = mu0 = 1)')


# ---------------------------------------------------------------- spherical

def spherical(ctx):
    p = ctx.prog(UNITS)
    cls = NS + 'SphericalVector'
    ctx.rule('spherical-from', 'radius, polar and azimuthal angle of a Cartesian point')
    ctx.rule('spherical-round-trip', 'Cartesian -> spherical -> Cartesian is the identity')
    ctx.rule('spherical-basis', 'conversion of a field from the spherical basis uses the orthonormal basis (r, theta, phi) of the point')
    isv = lambda f: f['params'][0]['T'].replace('const ', '').startswith('std::vector')
    ism = lambda f: f['params'][0]['T'].replace('const ', '').startswith('mfem::Vector')
    conv = method(p, cls, 'convertToCartesian', 0)
    cf = method(p, cls, 'convertSphericalVectorFieldToCartesian', 3)
    for nm, pred in (('std::vector', isv), ('mfem::Vector', ism)):
        for dim in (2, 3):
            ip = ctx.interp(p)
            pos = syms('r', dim)
            f = find_ctor(p, cls, 1, pred)
            o = construct(ip, cls, [vec(pos)], pred)
            obj = ip.read(o)
            R = norm(pos)
            ctx.equal('spherical-from', ip.term(ip.getc(obj, ('f', 'radius'))), R, where(f), what='radius %d-D' % dim)
            ctx.equal('spherical-from', ip.term(ip.getc(obj, ('f', 'theta'))), div(PI, num(2)) if dim == 2 else f_un('acos', div(pos[2], R)), where(f), what='theta %d-D' % dim)
            ctx.equal('spherical-from', ip.term(ip.getc(obj, ('f', 'phi'))), mk('app', ('atan2', pos[1], pos[0]), 'n'), where(f), what='phi %d-D' % dim)
            v = ip.call_function(conv, [], o)
            for d in range(3):
                ctx.equal('spherical-round-trip', ip.term(ip.getc(v, ('i', num(d)))), pos[d] if d < dim else ZERO, where(conv), what='component %d, %d-D' % (d, dim))
            ip = ctx.interp(p)
    ip = ctx.interp(p)
    r, th, ph = sym('R'), sym('th'), sym('ph')
    o = construct(ip, cls, [r, th, ph])
    st, ct, sp, cp = f_sin(th), f_cos(th), f_sin(ph), f_cos(ph)
    a = [sym('Ar'), sym('At'), sym('Ap')]
    want = [add(add(mul(mul(st, cp), a[0]), mul(mul(ct, cp), a[1])), mul(neg(sp), a[2])),
            add(add(mul(mul(st, sp), a[0]), mul(mul(ct, sp), a[1])), mul(cp, a[2])),
            sub(mul(ct, a[0]), mul(st, a[1]))]
    v = ip.call_function(cf, a, o)
    for d in range(3):
        ctx.equal('spherical-basis', ip.term(ip.getc(v, ('i', num(d)))), want[d], where(cf), what='component %d' % d)
    v = ip.call_function(conv, [], o)
    w = [mul(r, mul(st, cp)), mul(r, mul(st, sp)), mul(r, ct)]
    for d in range(3):
        ctx.equal('spherical-round-trip', ip.term(ip.getc(v, ('i', num(d)))), w[d], where(conv), what='component %d' % d)
    ctx.assumptions.append('points other than the origin; real arithmetic')


CHECKS.update({'P04': dipole, 'P05': spherical})
