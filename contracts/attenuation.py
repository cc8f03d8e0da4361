from dsl import *
from interpolation import ascending
import mathfn
P = ['P01']
SHELLS = ['K', 'L1', 'L2', 'L3', 'M1', 'M2', 'M3', 'M4', 'M5']
OTHER = 'all other'; ALL = SHELLS + [OTHER]
RM = ('map', STR, REAL); VM = ('map', STR, ('vec', REAL))
TINY = RealVal('5.E-10'); EDGE = RealVal('1.E-5')
inshells = lambda s: Or(*[s == lit(x) for x in SHELLS])
inall = lambda s: Or(*[s == lit(x) for x in ALL])

def loglog(r, e, x0, x1, y0, y1):
    """r is the log-log interpolation of (x0,y0), (x1,y1) at e"""
    return And(r > 0, flog(r) * flog(x1 / x0) == flog(x1 / e) * flog(y0) + flog(e / x0) * flog(y1))

# ---- where an energy falls in a table (lower_bound convention, edges are repeated energies)
def inside(E, e, j):
    """j,j+1 are the neighbours used for e (extrapolating outside the table); e is not a repeated energy there"""
    return And(0 <= j, j + 1 < E.n, Or(j == 0, E[j] < e), Or(j + 1 == E.n - 1, e <= E[j + 1]), Not(And(e == E[j + 1], j + 2 < E.n, E[j + 2] == e)), E[j + 1] - E[j] >= TINY)
def edge(E, e, j):
    """e is the repeated energy of entries j, j+1 (the first such entry)"""
    return And(0 < j, j + 1 < E.n, E[j - 1] < e, E[j] == e, E[j + 1] == e)

def partial_spec(b, E, Y, e, r, s):
    """what the partial coefficient r of shell s at energy e must be; b binding energy, E,Y its table"""
    on = Or(s == lit(OTHER), And(b != 0, e >= b))
    sh = s != lit(OTHER)
    return [('zero when the shell is not excited', Implies(Not(on), r == 0)),
            ('not negative', r >= 0),
            ('log-log interpolation between positive neighbours', Implies(on, idx(E.n, lambda j: Implies(And(inside(E, e, j), Y[j] > 0, Y[j + 1] > 0), loglog(r, e, E[j], E[j + 1], Y[j], Y[j + 1]))))),
            ('the value above the edge of a shell opening there', Implies(on, idx(E.n, lambda j: Implies(And(edge(E, e, j), Or(Not(sh), Y[j] == 0), Y[j + 1] > 0), r == Y[j + 1])))),
            ('the tabulated value at other repeated energies', Implies(And(on, sh), idx(E.n, lambda j: Implies(And(edge(E, e, j), Y[j] > 0), r == Y[j])))),
            ('an excited shell has a positive coefficient', Implies(And(on, sh), r > 0))]

def tables(o):
    """the partial tables of an element with photoelectric data"""
    pe, pv, b = o.muPartialPhotoelectricEnergy, o.muPartialPhotoelectricValue, o.bindingEnergy
    E = lambda s: view(wrap(Select(pe.v.val, s), ('vec', REAL))); Y = lambda s: view(wrap(Select(pv.v.val, s), ('vec', REAL)))
    every = lambda f: forall(STR_SORT, lambda s: Implies(inall(s), f(s)))
    return [('every shell has a table', every(lambda s: And(Select(pe.v.dom, s), Select(pv.v.dom, s), E(s).n >= 4, Y(s).n == E(s).n))),
            ('every shell has a binding energy', forall(STR_SORT, lambda s: Implies(inshells(s), Select(b.v.dom, s)))),
            ('energies ascend', every(lambda s: ascending(E(s)))),
            ('energies are positive', every(lambda s: E(s)[0] > 0)),
            ('coefficients are not negative', every(lambda s: idx(Y(s).n, lambda k: Y(s)[k] >= 0))),
            ('the last coefficients are positive', every(lambda s: Implies(And(s != lit(OTHER), b.v.val[s] != 0), And(Y(s)[E(s).n - 3] > 0, Y(s)[E(s).n - 2] > 0, Y(s)[E(s).n - 1] > 0)))),
            ('positive coefficients stay positive', every(lambda s: Implies(s != lit(OTHER), idx(Y(s).n - 1, lambda k: Implies(Y(s)[k] > 0, Y(s)[k + 1] > 0))))),
            ('energies are at most doubled', every(lambda s: idx(E(s).n - 2, lambda k: E(s)[k] + RealVal('1E-9') < E(s)[k + 2]))),
            ('distinct energies are apart', every(lambda s: idx(E(s).n - 1, lambda k: Or(E(s)[k] == E(s)[k + 1], E(s)[k + 1] - E(s)[k] >= RealVal('1E-9')))))]
STR_SORT = sort_of(STR)

def at(m, s, t):
    return view(wrap(Select(m.v.val, s), t))
def partials_ok(o, e, m, upto=lambda s: inall(s)):
    """every key of m among the shells satisfies the specification"""
    out = []
    m = getattr(m, 'v', m)
    one = lambda s: partial_spec(o.bindingEnergy.v.val[s], at(o.muPartialPhotoelectricEnergy, s, ('vec', REAL)), at(o.muPartialPhotoelectricValue, s, ('vec', REAL)), e, Select(m.val, s), s)
    for q, (lb, _) in enumerate(one(FreshConst(STR_SORT, 's'))):
        out.append((lb, forall(STR_SORT, lambda s, q=q: (Implies(And(upto(s), inall(s)), one(s)[q][1]), Select(m.val, s)))))
    return out

def partial_inv(L):
    out = []
    o, e = L.ctx.this, L.ctx.arg(0)
    for m in L.maps(STR, REAL):
        n = 6
        for q in range(n):
            out.append(('!%s: %s' % (m.name, partials_ok(o, e, m.entry)[q][0]), lambda st, m=m, q=q: partials_ok(o, e, m(st), lambda s: Select(m(st).dom, s))[q][1]))
        out.append(('%s has only shells' % m.name, lambda st, m=m: forall(STR_SORT, lambda s: (Implies(Select(m(st).dom, s), inall(s)), Select(m(st).dom, s)))))
        for i in [i for i in L.ints() if z3.is_int_value(i.entry)]:
            for k, s in enumerate(ALL):
                out.append(('%s has %s below %s' % (m.name, s, i.name), lambda st, m=m, i=i, k=k, s=s: Implies(i(st) > k, Select(m(st).dom, lit(s)))))
    for i in L.ints():
        for s in [s for s in L.strs(mod=None) if not s.name.startswith('this')]:
            out.append(('%s well inside the table of %s' % (i.name, s.name), lambda st, i=i, s=s: i(st) <= at(o.muPartialPhotoelectricValue, s(st), ('vec', REAL)).n - 3))
    return out

Contract('fisx::Element::getPartialPhotoelectricMassAttenuationCoefficients', prop=P, opts=dict(unroll=0, div0=False, paths=True, split=60),
    requires=lambda c: tables(c.this) + [('energy is positive', c.arg(0) > 0)], throws=lambda c: [], loops=[partial_inv],
    ensures=lambda c: [('one entry per shell', forall(STR_SORT, lambda s: (Select(c.result.dom, s) == inall(s), Select(c.result.dom, s))))] + partials_ok(c.this, c.arg(0), c.result, lambda s: Select(c.result.dom, s)))
