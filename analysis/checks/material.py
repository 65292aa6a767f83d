"""Material admissibility, derived quantities, and their piecewise assembly in the model."""
from fw import *
from terms import *

NS = 'maxwell::'


def material(ctx):
    p = ctx.prog(['src/components/Material.cpp', 'src/components/Model.cpp'])
    cls = NS + 'Material'
    e, m, s = sym('eps'), sym('mu'), sym('sig')
    ctx.rule('material-admissible', 'construction is refused exactly when permittivity < 1, permeability < 1 or conductivity < 0')
    ctx.rule('material-stored', 'a constructed material reports the permittivity, permeability and conductivity it was given')
    ctx.rule('material-derived', 'impedance sqrt(mu/eps), admittance sqrt(eps/mu), speed 1/sqrt(mu eps); refused exactly for conductive materials')
    ctx.rule('material-vacuum', 'the vacuum material has unit permittivity and permeability and no conductivity')
    f = find_ctor(p, cls, 3)
    ip = ctx.interp(p)
    o = cell(ip, Obj(cls, None, {}))
    ip.top_throws = []
    ip.call_function(f, [cell(ip, x) for x in (e, m, s)], o)
    thr = FALSE
    for pc, T, st in ip.top_throws:
        thr = b_or(thr, pc)
    want = b_or(b_or(b_lt(e, ONE), b_lt(m, ONE)), b_lt(s, ZERO))
    doms = None
    ctx.equal('material-admissible', ite(thr, ONE, ZERO), ite(want, ONE, ZERO), where(f), doms, what='refusal condition', trials=200)
    ok = b_not(want)
    for name, v in (('getPermittivity', e), ('getPermeability', m), ('getConductivity', s)):
        g = method(p, cls, name, 0)
        ctx.equal('material-stored', outcome(ip, g, [], o), v, where(g), doms, pre=ok, what=name, trials=100)
    for name, v in (('getImpedance', f_sqrt(div(m, e))), ('getAdmittance', f_sqrt(div(e, m))), ('getSpeedOfWave', div(ONE, f_sqrt(mul(m, e))))):
        g = method(p, cls, name, 0)
        ctx.equal('material-derived', outcome(ip, g, [], o), ite(b_eq(s, ZERO), v, throw('')), where(g), doms, pre=ok, what=name, trials=200)
    bv = [x for x in p.fn.values() if x['name'] == 'buildVacuumMaterial' and x.get('body') is not None]
    ctx.anchor(bv, 'no definition of buildVacuumMaterial')
    ip = ctx.interp(p)
    r, t = run(ip, bv[0])
    ctx.hold('material-vacuum', t is FALSE, where(bv[0]), 'building vacuum can fail')
    oc = cell(ip, r)
    for name, v in (('getPermittivity', ONE), ('getPermeability', ONE), ('getConductivity', ZERO)):
        g = method(p, cls, name, 0)
        ctx.equal('material-vacuum', outcome(ip, g, [], oc), v, where(bv[0]), what=name)
    ctx.assumptions.append('finite inputs (no NaN); real arithmetic')


CHECKS = {'P06': material}
