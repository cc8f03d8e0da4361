from dsl import *
import elements_mix as E
OPQ = dict(opaque=['fisx::Elements'])
P = ['P09']
EMPTYMAT = None

def mass_path(c, angle):
    """density*thickness seen along the beam"""
    a = c.this
    rt = a.density * a.thickness
    s = If(angle < 0, fsin(-angle * PI / 180), fsin(angle * PI / 180))
    return If(angle == 90, rt, rt / s)

def angle_ok(angle):
    return Or(angle == 90, If(angle < 0, fsin(-angle * PI / 180), fsin(angle * PI / 180)) != 0)

def mu1(c, e, lib):
    return If(c.this.hasMaterial, E.MU_MAP_E.puref(lib, c.this.material.composition, e, IntVal(0)).get('total'), E.MU_NAME_E.puref(lib, c.this.materialName, e).get('total'))

def trans(c, mu, angle):
    f = c.this.funnyFactor
    return (1 - f) + f * fexp(-(mass_path(c, angle) * mu))

def bounded(f, m, mu, t):
    return Implies(And(f >= 0, f <= 1, m > 0, mu >= 0), And(t >= 0, t <= 1))

Contract('fisx::Layer::getTransmission', sig='double (const double &, const Elements &, const double &) const', prop=P, opts=OPQ,
    requires=lambda c: [('incidence not parallel to the layer', angle_ok(c.arg(2)))],
    on_throw=lambda c: [],
    ensures=lambda c: [('mass path is positive', mass_path(c, c.arg(2)) > 0),
                       ('transmission is (1-f)+f*exp(-path*mu)', c.result == trans(c, mu1(c, c.arg(0), c.arg(1)), c.arg(2))),
                       ('transmission is a fraction', bounded(c.this.funnyFactor, mass_path(c, c.arg(2)), mu1(c, c.arg(0), c.arg(1)), c.result))])

def muv(c, lib, energies):
    m = E.MU_MAP_V.puref(lib, c.this.material.composition, energies, IntVal(0))
    nm = E.MU_NAME_V.puref(lib, c.this.materialName, energies)
    return m.get('total'), nm.get('total')

def mu_at(c, i):
    a, b = muv(c, c.arg(1), c.arg(0))
    return If(c.this.hasMaterial, a[i], b[i])

def trans_loop(L):
    out = []
    c = L.ctx
    for v in L.vecs(REAL):
        if v.entry is None:
            continue
        for i in L.ints():
            out.append(('%s below %s transformed' % (v.name, i.name), lambda st, v=v, i=i, e=v.entry: forall(IntSort(), lambda k: (Implies(And(0 <= k, k < i(st)), Select(v(st).a, k) == trans(c, Select(e.a, k), c.arg(2))), Select(v(st).a, k)))))
    return out

Contract('fisx::Layer::getTransmission', sig='std::vector<double> (const std::vector<double> &, const Elements &, const double &) const', prop=P, opts=OPQ,
    requires=lambda c: [('incidence not parallel to the layer', angle_ok(c.arg(2)))],
    loops=[trans_loop, untouched_suffix],
    ensures=lambda c: [('mass path is positive', mass_path(c, c.arg(2)) > 0),
                       ('one value per mass attenuation coefficient', c.result.n == If(c.this.hasMaterial, muv(c, c.arg(1), c.arg(0))[0].n, muv(c, c.arg(1), c.arg(0))[1].n)),
                       ('each transmission is (1-f)+f*exp(-path*mu)', idx(c.result.n, lambda i: c.result[i] == trans(c, mu_at(c, i), c.arg(2)))),
                       ('each transmission is a fraction', idx(c.result.n, lambda i: bounded(c.this.funnyFactor, mass_path(c, c.arg(2)), mu_at(c, i), c.result[i])))])

def empty_materials():
    return view(default_value(('vec', ('struct', 'fisx::Material'))))

Contract('fisx::Layer::getComposition', prop=P, opts=OPQ, may_throw=True, inline=True,
    ensures=lambda c: [('composition of the material or of the named material', same(c.result, View(ite_val(c.this.hasMaterial, E.COMP_MAP.puref(c.arg(0), c.this.material.composition, empty_materials()).v, E.COMP_NAME1.puref(c.arg(0), c.this.materialName).v))))])

Contract('fisx::Layer::setDensity', prop=P, modifies=['density'], exc_modifies=[], throws=lambda c: [('not positive', INVALID, c.arg(0) <= 0)], ensures=lambda c: [('stored', c.this.density == c.arg(0))])
Contract('fisx::Layer::setThickness', prop=P, modifies=['thickness'], exc_modifies=[], throws=lambda c: [('not positive', INVALID, c.arg(0) <= 0)], ensures=lambda c: [('stored', c.this.thickness == c.arg(0))])
Contract('fisx::Layer::setMaterial', sig='void (const std::string &)', prop=P, modifies=['materialName', 'hasMaterial'], throws=lambda c: [],
    ensures=lambda c: [('name stored', c.this.materialName == c.arg(0)), ('composition now comes from the name', Not(c.this.hasMaterial))])
Contract('fisx::Layer::setMaterial', sig='void (const Material &)', prop=P, modifies=['material', 'hasMaterial', 'density', 'thickness'], throws=lambda c: [],
    ensures=lambda c: [('material stored', same(c.this.material, c.arg(0))), ('composition now comes from the material', c.this.hasMaterial),
                       ('a given thickness is kept', c.this.thickness == If(c.old.thickness > 0, c.old.thickness, c.arg(0).defaultThickness)),
                       ('a given density is kept', Implies(c.old.density > 0, c.this.density == c.old.density))])
getter('fisx::Layer::hasMaterialComposition', 'hasMaterial', P)
Contract('fisx::Layer::Layer', sig='void (const std::string &, const double &, const double &, const double &)', prop=P, throws=lambda c: [],
    ensures=lambda c: [('arguments stored', And(c.this.name == c.arg(0), c.this.materialName == c.arg(0), c.this.density == c.arg(1), c.this.thickness == c.arg(2), c.this.funnyFactor == c.arg(3), Not(c.this.hasMaterial)))])
