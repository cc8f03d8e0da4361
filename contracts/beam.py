from z3 import is_false
from dsl import *
P = ['P11']
RAY = ('struct', 'fisx::Ray')
EN, WT, CH, DV = [fieldof(RAY, f) for f in ('energy', 'weight', 'characteristic', 'divergency')]
SumW = SumBy('weight', RAY, WT)

def scaled_prefix(L):
    """below the counter the weights are divided by t, everything else is as before the loop"""
    out = []
    for v in L.vecs(RAY):
        if v.entry is None:
            continue
        for i in L.ints():
            for t in L.reals(mod=None):
                out.append(('%s scaled by 1/%s below %s' % (v.name, t.name, i.name), lambda st, v=v, i=i, t=t, e=v.entry: forall(IntSort(), lambda k: (Implies(And(0 <= k, k < i(st)), And(WT(Select(v(st).a, k)) * t(st) == WT(Select(e.a, k)), EN(Select(v(st).a, k)) == EN(Select(e.a, k)), CH(Select(v(st).a, k)) == CH(Select(e.a, k)), DV(Select(v(st).a, k)) == DV(Select(e.a, k)))), Select(v(st).a, k)))))
                out.append(('SumW(%s,%s)*%s is the sum before' % (v.name, i.name, t.name), lambda st, v=v, i=i, t=t, e=v.entry: SumW(v(st).a, i(st)) * t(st) == SumW(e.a, i(st))))
    return out

def sorted_rays(r):
    i = FreshConst(IntSort(), 'i'); j = FreshConst(IntSort(), 'j')
    return ForAll([i, j], Implies(And(0 <= i, i < j, j < r.n), EN(Select(r.a, i)) <= EN(Select(r.a, j))))

def perm_of(c):
    s = c.ghost.get('sorts')
    return s[-1] if s else None

def permuted(c, n, expect, T):
    """each ray is one of the given rays (each used once), weight divided by the total"""
    r = c.this.rays
    g = perm_of(c)
    if g is None:
        return [('the rays are a rearrangement of the given ones', n <= 0)] if c.proving else []
    perm, inv = g[2], g[3]
    sc = lambda x, w: If(T > 0, x * T == w, x == w)
    return [('each ray is one of the given ones, with its weight divided by the total', idx(n, lambda i: And(0 <= perm(i), perm(i) < n, inv(perm(i)) == i,
                 r[i].energy == expect('energy', perm(i)), sc(r[i].weight, expect('weight', perm(i))), r[i].characteristic == expect('characteristic', perm(i)), r[i].divergency == expect('divergency', perm(i))))),
            ('each given ray is present', idx(n, lambda k: And(0 <= inv(k), inv(k) < n, perm(inv(k)) == k)))]

def norm(c):
    o = c.old.rays
    return [('same number of rays', c.this.rays.n == o.n), ('normalised', c.this.normalized), ('sorted by energy', sorted_rays(c.this.rays)),
            ('weights sum to one', Implies(SumW(o.a, o.n) > 0, SumW(c.this.rays.a, c.this.rays.n) == 1))] + \
        permuted(c, o.n, lambda f, k: getattr(o[k], f), SumW(o.a, o.n))

Contract('fisx::Beam::normalizeBeam', prop=P, inline=True, modifies=['normalized', 'rays'], throws=lambda c: [], loops=[sums_by(SumW, RAY), scaled_prefix, untouched_suffix], ensures=norm)

# ---- what the caller gave for ray k
def opt(v, k, default):
    return If(v.n > 1, v[k], If(v.n == 1, v[0], default))
def given_v(c):
    e, w, ch, d = [c.arg(i) for i in range(4)]
    return lambda f, k: {'energy': e[k], 'weight': opt(w, k, RealVal(1)), 'characteristic': opt(ch, k, IntVal(1)), 'divergency': opt(d, k, RealVal(0))}[f]
def given_p(c):
    e, w, ch, d = [c.arg(i) for i in range(1, 5)]
    nl = c.nulls
    return lambda f, k: {'energy': e[k], 'weight': If(nl[2], RealVal(1), w[k]), 'characteristic': If(nl[3], IntVal(1), trunc(ch[k])), 'divergency': If(nl[4], RealVal(0), d[k])}[f]
def trunc(x):
    return x if z3.is_int(x) else If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

def filled(given):
    def sch(L):
        out = []
        g = given(L.ctx)
        for v in L.vecs(RAY):
            for i in L.ints():
                for f, fn in (('energy', EN), ('weight', WT), ('characteristic', CH), ('divergency', DV)):
                    out.append(('%s[k].%s is what was given, k<%s' % (v.name, f, i.name), lambda st, v=v, i=i, f=f, fn=fn: forall(IntSort(), lambda k: (Implies(And(0 <= k, k < i(st)), fn(Select(v(st).a, k)) == g(f, k)), Select(v(st).a, k)))))
        return out
    return sch

def total_v(c, k):
    w = c.arg(1)
    return If(w.n > 1, SumV(w.a, k), If(w.n == 1, z3.ToReal(k) * w[0], z3.ToReal(k)))
def total_p(c, k):
    return If(c.nulls[2], z3.ToReal(k), SumV(c.arg(2).a, k))

def totals(total):
    def sch(L):
        out = []
        for v in L.vecs(RAY):
            for i in L.ints():
                out.append(('SumW(%s,%s) is the total given so far' % (v.name, i.name), lambda st, v=v, i=i: SumW(v(st).a, i(st)) == total(L.ctx, i(st))))
        return out
    return sch

def post(given, total, n):
    def ens(c):
        N = n(c); N = If(N > 0, N, IntVal(0))
        r = c.this.rays
        return [('one ray per energy', r.n == N), ('sorted by energy', sorted_rays(r)), ('weights sum to one', Implies(And(N > 0, total(c, N) > 0), SumW(r.a, r.n) == 1))] + permuted(c, N, given(c), total(c, N))
    return ens

def optlen(v, n):
    return Or(v.n <= 1, v.n >= n)
Contract('fisx::Beam::setBeam', sig='void (const std::vector<double> &, const std::vector<double> &, const std::vector<int> &, const std::vector<double> &)', prop=P,
    modifies=['normalized', 'rays'], throws=lambda c: [],
    requires=lambda c: [('optional lists are absent, single valued or complete', And(*[optlen(c.arg(i), c.arg(0).n) for i in (1, 2, 3)]))],
    loops=[filled(given_v), totals(total_v)], ensures=post(given_v, total_v, lambda c: c.arg(0).n))

def ptr_pre(c):
    return [('number of values is not negative', c.arg(0) >= 0)] + [('array %d holds the values' % i, Or(c.nulls.get(i, BoolVal(False)), c.arg(i).n >= c.arg(0))) for i in (1, 2, 3, 4)]
def default_when_null(L):
    out = []
    for i, b in L.ctx.nulls.items():
        if not is_false(b):
            for t in L.reals():
                if t.entry is not None:
                    out.append(('%s keeps its value when array %d is null' % (t.name, i), lambda st, t=t, b=b, e=t.entry: Implies(b, t(st) == e)))
    return out
def truncated(L):
    out = []
    for v in L.vecs(('int', True, 32)):
        for i in L.ints():
            out.append(('%s[k] is the given characteristic' % v.name, lambda st, v=v, i=i: forall(IntSort(), lambda k: (Implies(And(0 <= k, k < i(st)), Select(v(st).a, k) == trunc(L.ctx.arg(3)[k])), Select(v(st).a, k)))))
    return out
for T in ('int', 'double'):
    Contract('fisx::Beam::setBeam', sig='void (const int &, const double *, const double *, const %s *, const double *)' % T, prop=P, inline=True,
        modifies=['normalized', 'rays'], throws=lambda c: [], opts=dict(nullable=(2, 3, 4)), requires=ptr_pre,
        loops=[filled(given_p), totals(total_p), default_when_null, truncated], ensures=post(given_p, total_p, lambda c: c.arg(0)))

Contract('fisx::Beam::setSingleEnergyBeam', prop=P, modifies=['normalized', 'rays'], throws=lambda c: [],
    ensures=lambda c: [('one ray', c.this.rays.n == 1), ('the given ray with weight one', And(c.this.rays[0].energy == c.arg(0), c.this.rays[0].weight == 1, c.this.rays[0].characteristic == 1, c.this.rays[0].divergency == c.arg(1)))])

def table(c, n):
    r = c.this.rays; v = c.result
    row = lambda j, f: [('row %d has one entry per ray' % j, v[j].n == n), ('row %d is the %s' % (j, f), idx(n, lambda k: v[j][k] == (z3.ToReal(getattr(r[k], f)) if f == 'characteristic' else getattr(r[k], f))))]
    return [('four rows', v.n == 4)] + [x for j, f in enumerate(('energy', 'weight', 'characteristic', 'divergency')) for x in row(j, f)]
def rows_prefix(L):
    out = []
    r = L.ctx.this.rays
    for v in L.vecs(('vec', REAL)):
        for i in L.ints():
            for j, f in enumerate(('energy', 'weight', 'characteristic', 'divergency')):
                out.append(('row %d of %s below %s' % (j, v.name, i.name), lambda st, v=v, i=i, j=j, f=f: idx(i(st), lambda k: view(wrap(sel(v(st).a, IntVal(j)), ('vec', REAL)))[k] == (z3.ToReal(getattr(r[k], f)) if f == 'characteristic' else getattr(r[k], f)))))
    return out
def rows_len(L):
    out = []
    r = L.ctx.this.rays
    for v in L.vecs(('vec', REAL)):
        out.append(('%s has 4 rows' % v.name, lambda st, v=v: v(st).n == 4))
        for j in range(4):
            out.append(('row %d of %s is complete' % (j, v.name), lambda st, v=v, j=j: view(wrap(sel(v(st).a, IntVal(j)), ('vec', REAL))).n == r.n))
    return out
Contract('fisx::Beam::getBeamAsDoubleVectors', prop=P, throws=lambda c: [], loops=[rows_prefix, rows_len], ensures=lambda c: table(c, c.this.rays.n))
getter('fisx::Beam::getBeam', 'rays', P)
