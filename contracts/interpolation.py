from dsl import *
P = ['P03']

def ascending(v):
    i = FreshConst(IntSort(), 'i'); j = FreshConst(IntSort(), 'j')
    return ForAll([i, j], Implies(And(0 <= i, i < j, j < v.n), v[i] <= v[j]))

def bracket(v, x, r, strict):
    a, b = r.first, r.second
    below = v[a] < x if strict else v[a] <= x
    return [('a table of one point', Implies(v.n == 1, And(a == 0, b == 0))),
            ('two neighbouring points', Implies(v.n > 1, And(0 <= a, b == a + 1, b < v.n))),
            ('not above the value unless it lies below the table', Implies(v.n > 1, Or(a == 0, below))),
            ('not below the value unless it lies above the table', Implies(v.n > 1, Or(b == v.n - 1, x <= v[b])))]

def bisect(L):
    v, x = L.ctx.arg(0), L.ctx.arg(1)
    out = []
    for a in L.ints():
        out.append(('%s inside the table' % a.name, lambda st, a=a: a(st) < v.n))
        out.append(('value not below entry %s' % a.name, lambda st, a=a: Or(a(st) == 0, v[a(st)] < x)))
        out.append(('value not above entry %s' % a.name, lambda st, a=a: Or(a(st) == v.n - 1, x <= v[a(st)])))
        for b in L.ints():
            if a is not b:
                out.append(('%s<%s' % (a.name, b.name), lambda st, a=a, b=b: a(st) < b(st)))
                for d in L.ints():
                    if d is not a and d is not b:
                        out.append(('%s==%s-%s' % (d.name, b.name, a.name), lambda st, a=a, b=b, d=d: d(st) == b(st) - a(st)))
    return out

Contract('fisx::EPDL97::getInterpolationIndices', prop=P, throws=lambda c: [], static_inv=lambda v, t: [('not negative', v >= 0)] if t[0] == 'int' else [],
    requires=lambda c: [('table not empty', c.arg(0).n >= 1), ('table ascending', ascending(c.arg(0)))],
    loops=[bisect], ensures=lambda c: bracket(c.arg(0), c.arg(1), c.result, True))
Contract('fisx::Element::getInterpolationIndices', prop=P, throws=lambda c: [],
    requires=lambda c: [('table not empty', c.arg(0).n >= 1), ('table ascending', ascending(c.arg(0)))],
    loops=[bisect], ensures=lambda c: bracket(c.arg(0), c.arg(1), c.result, True))
