from dsl import *
MAT = ('struct', 'fisx::Material')

# sum of the amounts given for one name (names may repeat)
SumKey = Function('SumKey', ArraySort(IntSort(), Str), ArraySort(IntSort(), RealSort()), Str, IntSort(), RealSort())
@S.unfold_rule(SumKey)
def _(nm, am, k, n):
    return [Implies(n <= 0, SumKey(nm, am, k, n) == 0),
            Implies(n > 0, SumKey(nm, am, k, n) == SumKey(nm, am, k, n - 1) + If(sel(nm, z3.simplify(n - 1)) == k, sel(am, z3.simplify(n - 1)), RealVal(0)))] + frame_rule(SumKey, [nm, am, k, n], [0, 1], n)

Contract('fisx::Material::initialize', prop=['P07'],
    modifies=['name', 'defaultDensity', 'defaultThickness', 'comment', 'initialized'], exc_modifies=[],
    throws=lambda c: [('empty name', INVALID, slen(c.arg(0)) < 1), ('non-positive density', INVALID, c.arg(1) <= 0), ('non-positive thickness', INVALID, c.arg(2) <= 0)],
    ensures=lambda c: [('name stored', c.this.name == c.arg(0)), ('density stored', c.this.defaultDensity == c.arg(1)),
                       ('thickness stored', c.this.defaultThickness == c.arg(2)), ('comment stored', c.this.comment == c.arg(3)), ('initialized', c.this.initialized)])

def comp_loop(L):
    out = []
    names, amounts = L.ctx.arg(0), L.ctx.arg(1)
    for m in L.maps(STR, REAL):
        for i in L.ints():
            for t in L.reals(mod=None):
                out.append(('Total(%s)*%s==Sum(amounts,%s)' % (m.name, t.name, i.name), lambda st, m=m, i=i, t=t: Total(m(st)) * t(st) == SumV(amounts.a, i(st))))
                out.append(('each %s*%s is the share of its name up to %s' % (m.name, t.name, i.name),
                            lambda st, m=m, i=i, t=t: forall(Str, lambda k: (Implies(sel(m(st).dom, k), And(Select(m(st).val, k) * t(st) == SumKey(names.a, amounts.a, k, i(st)), Select(m(st).val, k) > 0)), Select(m(st).dom, k)))))
            out.append(('keys of %s among names' % m.name, lambda st, m=m, i=i: forall(Str, lambda k: Not(sel(m(st).dom, k)) == (SumKey(names.a, amounts.a, k, i(st)) == 0))))
            out.append(('names below %s present in %s' % (i.name, m.name), lambda st, m=m, i=i: idx(i(st), lambda j: Select(m(st).dom, Select(names.a, j)))))
    return out

def comp_post(names, amounts, comp):
    n = amounts.n
    T = SumV(amounts.a, n)
    return [('fractions sum to one', Implies(n > 0, Total(comp) == 1)),
            ('every fraction is positive and proportional to the amount given for that name',
             forall(Str, lambda k: Implies(comp.has(k), And(comp.v.val[k] > 0, comp.v.val[k] * T == SumKey(names.a, amounts.a, k, n))))),
            ('every given name is present', idx(n, lambda j: comp.has(names[j]))),
            ('only given names are present', forall(Str, lambda k: Implies(comp.has(k), SumKey(names.a, amounts.a, k, n) > 0))),
            ('empty input gives empty composition', Implies(n == 0, forall(Str, lambda k: Not(comp.has(k)))))]

Contract('fisx::Material::setComposition', sig='void (const std::vector<std::string> &, const std::vector<double> &)', prop=['P07'],
    modifies=['composition'], exc_modifies=[],
    throws=lambda c: [('size mismatch', INVALID, c.arg(0).n != c.arg(1).n),
                      ('non-positive amount', INVALID, Not(idx(c.arg(1).n, lambda k: c.arg(1)[k] > 0)))],
    loops=[prefix_sums, positive_prefix, comp_loop],
    ensures=lambda c: comp_post(c.arg(0), c.arg(1), c.this.composition))

def map_copy(L):
    src = L.ctx.arg(0)
    out = []
    for v in L.vecs(STR):
        out.append(('%s holds the keys' % v.name, lambda st, v=v: idx(v(st).n, lambda k: Select(v(st).a, k) == src.key(k))))
    for v in L.vecs(REAL):
        out.append(('%s holds the values' % v.name, lambda st, v=v: idx(v(st).n, lambda k: Select(v(st).a, k) == Select(src.val, src.key(k)))))
    for v in L.vecs(REAL):
        for i in L.ints():
            out.append(('Sum(%s)==prefix total of the map' % v.name, lambda st, v=v: SumV(v(st).a, v(st).n) == SumM(src.dom, src.val, v(st).n)))
    for v in L.vecs(STR):
        for w in L.vecs(REAL):
            out.append(('SumKey(%s,%s) matches the map' % (v.name, w.name), lambda st, v=v, w=w: forall(Str, lambda k: (SumKey(v(st).a, w(st).a, k, v(st).n) == If(And(Select(src.dom, k), rank(src.dom, k) < v(st).n), Select(src.val, k), RealVal(0)), SumKey(v(st).a, w(st).a, k, v(st).n)))))
    return out + len_is_counter(L)

Contract('fisx::Material::setComposition', sig='void (const std::map<std::string, double> &)', prop=['P07'],
    modifies=['composition'], exc_modifies=[],
    throws=lambda c: [('non-positive amount', INVALID, Not(idx(c.arg(0).size, lambda i: Select(c.arg(0).val, c.arg(0).key(i)) > 0)))],
    loops=[map_copy],
    ensures=lambda c: [('fractions sum to one', Implies(c.arg(0).size > 0, Total(c.this.composition) == 1)),
                       ('every fraction is positive and proportional to the given amount', forall(Str, lambda k: Implies(c.this.composition.has(k), And(c.this.composition.v.val[k] > 0, c.this.composition.v.val[k] * SumM(c.arg(0).dom, c.arg(0).val, c.arg(0).size) == c.arg(0).v.val[k])))),
                       ('exactly the given names are present', forall(Str, lambda k: c.this.composition.has(k) == c.arg(0).has(k)))])
getter('fisx::Material::getComposition', 'composition', ['P07'])
getter('fisx::Material::getName', 'name', ['P07'])
getter('fisx::Material::getComment', 'comment', ['P07'])
getter('fisx::Material::getDefaultDensity', 'defaultDensity', ['P07'])
getter('fisx::Material::getDefaultThickness', 'defaultThickness', ['P07'])
Contract('fisx::Material::Material', sig='void ()', prop=['P07'], inline=True, throws=lambda c: [], ensures=lambda c: [('not initialised', Not(c.this.initialized)), ('composition empty', forall(Str, lambda k: Not(c.this.composition.has(k)))), ('defaults are valid', And(c.this.defaultDensity > 0, c.this.defaultThickness > 0))])
Contract('fisx::Material::Material', sig='void (const std::string &, const double &, const double &, const std::string &)', prop=['P07'], throws=lambda c: [('empty name', INVALID, slen(c.arg(0)) < 1), ('non-positive density', INVALID, c.arg(1) <= 0), ('non-positive thickness', INVALID, c.arg(2) <= 0)],
    ensures=lambda c: [('arguments stored', And(c.this.name == c.arg(0), c.this.defaultDensity == c.arg(1), c.this.defaultThickness == c.arg(2), c.this.comment == c.arg(3), c.this.initialized)), ('composition empty', forall(Str, lambda k: Not(c.this.composition.has(k))))])
Contract('fisx::Material::setName', prop=['P07'], modifies=['name', 'initialized'], exc_modifies=[],
    throws=lambda c: [('already initialised', INVALID, c.this.initialized), ('empty name', INVALID, slen(c.arg(0)) < 1), ('non-positive density', INVALID, c.this.defaultDensity <= 0), ('non-positive thickness', INVALID, c.this.defaultThickness <= 0)],
    ensures=lambda c: [('name stored', c.this.name == c.arg(0)), ('initialised', c.this.initialized)])
