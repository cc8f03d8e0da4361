from dsl import *
P = ['P04']
TOTAL = lit('TOTAL')
MS = ArraySort(Str, BoolSort()), ArraySort(Str, RealSort())

def sumif(name, pred, extra=()):
    """sum over the first n keys of a map of the values whose key satisfies pred(key, value, *extra)"""
    f = Function(name, MS[0], MS[1], *[e for e in extra], IntSort(), RealSort())
    S._ensure_card(Str)
    @S.unfold_rule(f)
    def _(*a):
        d, v, n = a[0], a[1], a[-1]
        k = keyat(d, z3.simplify(n - 1))
        return [Implies(n <= 0, f(*a) == 0), Implies(n > 0, f(*a) == f(*a[:-1], z3.simplify(n - 1)) + If(pred(k, sel(v, k), *a[2:-1]), sel(v, k), RealVal(0)))]
    return f
Rates = sumif('Rates', lambda k, v: k != TOTAL)

def rates_loop(L):
    out = []
    t = L.ctx.old.radiativeTransitions
    for m in L.maps(STR, REAL, mod=None):
        for s in L.reals():
            for i in L.ints():
                out.append(('%s is the sum of the first %s rates of %s' % (s.name, i.name, m.name), lambda st, m=m, s=s, i=i: s(st) == Rates(m(st).dom, m(st).val, i(st))))
    for s in L.reals():
        for i in L.ints():
            out.append(('%s is at least each of the first %s rates' % (s.name, i.name), lambda st, s=s, i=i: forall(Str, lambda k: (Implies(And(Select(t.v.dom, k), rank(t.v.dom, k) < i(st), k != TOTAL), s(st) >= Select(t.v.val, k)), Select(t.v.dom, k)))))
            out.append(('%s >= 0' % s.name, lambda st, s=s: s(st) >= 0))
    for m in L.maps(STR, REAL):
        for i in L.ints():
            for s in L.reals(mod=None):
                out.append(('total of %s times %s is the sum of the first %s rates' % (m.name, s.name, i.name), lambda st, m=m, s=s, i=i: Total(m(st)) * s(st) == Rates(t.v.dom, t.v.val, i(st))))
            out.append(('%s holds the ratios of the first %s rates' % (m.name, i.name), lambda st, m=m, i=i: forall(Str, lambda k: (And(Select(m(st).dom, k) == And(Select(t.v.dom, k), rank(t.v.dom, k) < i(st), Select(t.v.val, k) > 0, k != TOTAL),
                  Implies(Select(m(st).dom, k), Select(m(st).val, k) == Select(t.v.val, k) / Rates(t.v.dom, t.v.val, card(t.v.dom)))), Select(m(st).dom, k)))))
    return out

def nonneg(m):
    return forall(Str, lambda k: (Implies(Select(m.v.dom, k), Select(m.v.val, k) >= 0), Select(m.v.val, k)))

Contract('fisx::Shell::_updateFluorescenceRatios', prop=P, opts=dict(paths=True), modifies=['fluorescenceRatios'], throws=lambda c: [], loops=[rates_loop],
    requires=lambda c: [('rates are not negative', nonneg(c.this.radiativeTransitions))],
    ensures=lambda c: [('exactly the transitions with a positive rate have a ratio', forall(Str, lambda k: c.this.fluorescenceRatios.has(k) == And(c.old.radiativeTransitions.has(k), c.old.radiativeTransitions[k] > 0, k != TOTAL))),
       ('each ratio is the share of the sum of the rates', forall(Str, lambda k: Implies(c.this.fluorescenceRatios.has(k), c.this.fluorescenceRatios[k] == c.old.radiativeTransitions[k] / Rates(c.old.radiativeTransitions.v.dom, c.old.radiativeTransitions.v.val, c.old.radiativeTransitions.size)))),
       ('ratios sum to one', Implies(Not(forall(Str, lambda k: Not(c.this.fluorescenceRatios.has(k)))), Total(c.this.fluorescenceRatios) == 1))])

# ---- the nine shells
def shells(multi=False):
    out = []
    for n, main, sub in [('K', 0, 0)] + [('L%d' % i, 1, i) for i in (1, 2, 3)] + [('M%d' % i, 2, i) for i in range(1, 6)]:
        out.append((n, dict(name=lit(n), shellMainIndex=IntVal(main), subshellIndex=IntVal(sub))))
    return out
def is_shell(c):
    return ('the object is one of the nine shells', Or(*[And(*[getattr(c.this, f) == v for f, v in d.items()]) for _, d in shells()]))

Group = sumif('Group', lambda k, v, p, l: And(v > 0, ssub(k, IntVal(0), l) == p), (Str, IntSort()))
def literal_of(c):
    n = c.this.name
    for lb, d in shells():
        if n.eq(d['name']):
            return lb
def groups(c):
    """Coster-Kronig constants of the shell and the prefix of the transitions they cover"""
    n = literal_of(c)
    top = {'K': 0, 'L': 3, 'M': 5}[n[0]]
    sub = int(n[1:] or 0)
    return [('f%d%d' % (sub, j), '%s-%s%d' % (n, n[0], j)) for j in range(sub + 1, top + 1)] if top else []

def nonrad(c):
    """the transitions with the total filled in"""
    o = c.old.nonradiativeTransitions.v
    return MapVal(Store(o.dom, TOTAL, BoolVal(True)), Store(o.val, TOTAL, If(Select(o.dom, TOTAL), Select(o.val, TOTAL), Rates(o.dom, o.val, card(o.dom)))), o.kt, o.vt)
def starts(k, p):
    return ssub(k, IntVal(0), IntVal(len(p))) == lit(p)
def gsum(m, p, n=None):
    return Group(m.dom, m.val, lit(p), IntVal(len(p)), card(m.dom) if n is None else n)

MSR = ('map', STR, REAL)
def nonrad_loop(L):
    out = rates_nr(L)
    c = L.ctx
    now = [h.entry for h in L.strs(mod=None) if h.entry is not None]
    gs = [(f, p) for f, p in groups(c) if any(e.eq(lit(p)) for e in now)]
    rates = [m for m in L.maps(STR, REAL, mod=False) if m.root != 'this' or m.path == ('nonradiativeTransitions',)]
    for ck in L.maps(STR, MSR):
        e = ck.entry
        out.append(('%s keeps its keys' % ck.name, lambda st, ck=ck, e=e: ck(st).dom == e.dom))
        out.append(('%s keeps its values' % ck.name, lambda st, ck=ck, e=e: ck(st).val == e.val))
        for f, p in gs:
            F = lit(f)
            out.append(('%s changes only at %s' % (ck.name, f), lambda st, ck=ck, e=e, F=F: forall(Str, lambda k: (Implies(k != F, And(Select(ck(st).dom, k) == Select(e.dom, k), Select(ck(st).val, k) == Select(e.val, k))), Select(ck(st).val, k)))))
            out.append(('%s keeps its keys but for %s' % (ck.name, f), lambda st, ck=ck, e=e, F=F: forall(Str, lambda k: (Implies(k != F, Select(ck(st).dom, k) == Select(e.dom, k)), Select(ck(st).dom, k)))))
            out.append(('%s keeps the keys of %s' % (ck.name, f), lambda st, ck=ck, e=e, F=F: And(Select(ck(st).dom, F) == Select(e.dom, F), inner(ck(st), F).dom == inner(e, F).dom)))
            for i in L.ints():
                for m in rates:
                    out.append(('%s[%s] holds the first %s transitions of %s' % (ck.name, f, i.name, m.name), lambda st, ck=ck, i=i, m=m, F=F, p=p: forall(Str, lambda k: (And(
                        And(Select(ck(st).dom, F), Select(inner(ck(st), F).dom, k)) == And(Select(m(st).dom, k), rank(m(st).dom, k) < i(st), Select(m(st).val, k) > 0, starts(k, p)),
                        Implies(And(Select(ck(st).dom, F), Select(inner(ck(st), F).dom, k)), Select(inner(ck(st), F).val, k) == Select(m(st).val, k))), Select(inner(ck(st), F).dom, k)))))
                    for t in L.reals(mod=None):
                        out.append(('%s[%s] divided by %s below %s' % (ck.name, f, t.name, i.name), lambda st, ck=ck, i=i, e=e, t=t, F=F: forall(Str, lambda k: (Implies(Select(inner(e, F).dom, k),
                            Select(inner(ck(st), F).val, k) == If(rank(inner(e, F).dom, k) < i(st), Select(inner(e, F).val, k) / t(st), Select(inner(e, F).val, k))), Select(inner(ck(st), F).val, k)))))
    for f, p in gs:
        for s in L.reals():
            for m in rates:
                for i in L.ints():
                    out.append(('%s is at least each of the first %s %s transitions' % (s.name, i.name, p), lambda st, s=s, i=i, m=m, p=p: forall(Str, lambda k: (Implies(And(Select(m(st).dom, k), rank(m(st).dom, k) < i(st), Select(m(st).val, k) > 0, starts(k, p)), s(st) >= Select(m(st).val, k)), Select(m(st).dom, k)))))
                    out.append(('%s is the total of the first %s %s transitions' % (s.name, i.name, p), lambda st, s=s, i=i, m=m, p=p: s(st) == gsum(m(st), p, i(st))))
    for au in L.maps(STR, REAL):
        for m in rates:
            for i in L.ints():
                for t in L.reals(mod=None):
                    out.append(('%s holds the Auger shares of %s below %s' % (au.name, t.name, i.name), lambda st, au=au, m=m, i=i, t=t: forall(Str, lambda k: (And(
                        Select(au(st).dom, k) == And(Select(m(st).dom, k), rank(m(st).dom, k) < i(st), Select(m(st).val, k) > 0, k != TOTAL, *[Not(starts(k, p)) for _, p in groups(c)]),
                        Implies(Select(au(st).dom, k), Select(au(st).val, k) == Select(m(st).val, k) / t(st))), Select(au(st).dom, k)))))
    return out
def inner(ck, F):
    return unfold(wrap(sel(ck.val, F), MSR))
def rates_nr(L):
    out = []
    m = L.ctx.old.nonradiativeTransitions.v
    for s in L.reals():
        for i in L.ints():
            out.append(('%s is the sum of the first %s rates' % (s.name, i.name), lambda st, s=s, i=i: s(st) == Rates(m.dom, m.val, i(st))))
    return out

def in_groups(ck, m, gs):
    """ck holds exactly the groups gs of the transitions m"""
    out = [('one group per Coster-Kronig constant', forall(Str, lambda k: (Select(ck.dom, k) == Or(*[k == lit(f) for f, _ in gs]), Select(ck.dom, k))))]
    for f, p in gs:
        g = inner(ck, lit(f))
        out += [('group %s holds exactly the positive %s transitions and its total' % (f, p), forall(Str, lambda k: (Select(g.dom, k) == Or(k == TOTAL, And(Select(m.dom, k), Select(m.val, k) > 0, starts(k, p))), Select(g.dom, k)))),
                ('ratios of group %s are shares of its total' % f, forall(Str, lambda k: (Implies(And(Select(g.dom, k), k != TOTAL), Select(g.val, k) == Select(m.val, k) / gsum(m, p)), Select(g.val, k)))),
                ('total of group %s' % f, sel(g.val, TOTAL) == gsum(m, p))]
    return out

def nonrad_cut(L):
    """after the iteration that handles group number n the first n groups are complete"""
    c = L.ctx; gs = groups(c); out = []
    now = [h(L.h) for h in L.strs(mod=None)]
    done = [i for i, (f, p) in enumerate(gs) if any(e.eq(lit(p)) for e in now)]
    if not done:
        return out
    gs = gs[:done[-1] + 1]
    rates = [m for m in L.maps(STR, REAL, mod=None) if m.root != 'this' or m.path == ('nonradiativeTransitions',)]
    for m in rates:
        for ck in L.maps(STR, MSR):
            for k, lb in enumerate([x[0] for x in in_groups(unfold(fresh(('map', STR, MSR), 'x')), m(L.h), gs)]):
                out.append(('%s of %s: %s' % (ck.name, m.name, lb), lambda st, ck=ck, m=m, k=k: in_groups(ck(st), m(st), gs)[k][1]))
        for s in L.reals():
            out.append(('%s is the total of the groups so far' % s.name, lambda st, s=s, m=m: s(st) == sum([gsum(m(st), p) for _, p in gs[1:]], gsum(m(st), gs[0][1]))))
            for f, p in gs:
                out.append(('%s is at least each %s transition' % (s.name, p), lambda st, s=s, m=m, p=p: forall(Str, lambda k: (Implies(And(Select(m(st).dom, k), Select(m(st).val, k) > 0, starts(k, p)), s(st) >= Select(m(st).val, k)), Select(m(st).dom, k)))))
            out.append(('%s>=0' % s.name, lambda st, s=s: s(st) >= 0))
    return out

def nonrad_post(c):
    m = nonrad(c)
    ck, au = c.this.costerKronigRatios, c.this.augerRatios
    gs = groups(c)
    tot = m.val[TOTAL]
    for f, p in gs:
        tot = tot - gsum(m, p)
    out = [('the supplied total is kept, a missing one is the sum of the rates', And(c.this.nonradiativeTransitions.v.dom == m.dom, forall(Str, lambda k: Implies(Select(m.dom, k), c.this.nonradiativeTransitions.v.val[k] == m.val[k]))))]
    out += in_groups(ck.v, m, gs)
    out += [('the Auger transitions are the positive ones in no group', forall(Str, lambda k: au.has(k) == Or(k == TOTAL, And(Select(m.dom, k), m.val[k] > 0, *[Not(starts(k, p)) for _, p in gs])))),
            ('Auger total is the total without the Coster-Kronig groups', au.v.val[TOTAL] == tot),
            ('Auger ratios are shares of the Auger total', forall(Str, lambda k: Implies(And(au.has(k), k != TOTAL), au.v.val[k] == m.val[k] / tot)))]
    return out

Contract('fisx::Shell::_updateNonradiativeRatios', prop=P, cases=shells(), opts=dict(weight=10, div0=False, paths=True), modifies=['augerRatios', 'costerKronigRatios', 'nonradiativeTransitions'], throws=lambda c: [],
    requires=lambda c: [is_shell(c)], loops=[nonrad_loop], cuts=[nonrad_cut], ensures=nonrad_post)

# ---- upper case
UPre = Function('UPre', Str, IntSort(), Str)      # the first i characters in upper case
@S.unfold_rule(UPre)
def _(s, i):
    c = schar(s, z3.simplify(i - 1))
    return [Implies(i <= 0, UPre(s, i) == lit('')), Implies(i > 0, UPre(s, i) == scat(UPre(s, z3.simplify(i - 1)), sofc(If(And(c >= 97, c <= 122), c - 32, c))))]
def upper(s):
    return UPre(s, slen(s))
def upper_loop(L):
    out = []
    s = L.ctx.arg(0)
    for r in L.strs():
        for i in L.ints():
            out.append(('%s is the first %s characters in upper case' % (r.name, i.name), lambda st, r=r, i=i: r(st) == UPre(s, i(st))))
            out.append(('%s has %s characters' % (r.name, i.name), lambda st, r=r, i=i: slen(r(st)) == i(st)))
    return out
Contract('fisx::Shell::toUpperCaseString', prop=P, throws=lambda c: [], loops=[upper_loop],
    ensures=lambda c: [('upper case', c.result == upper(c.arg(0))), ('same length', slen(c.result) == slen(c.arg(0)))])

# ---- constants
def consts_loop(L):
    out = []
    src = L.ctx.arg(0); e = L.ctx.old.shellConstants.v
    for m in L.maps(STR, REAL):
        for i in L.ints():
            out.append(('%s overwritten by the first %s' % (m.name, i.name), lambda st, m=m, i=i: forall(Str, lambda k: (Select(m(st).val, k) == If(And(src.has(k), rank(src.dom, k) < i(st)), Select(src.val, k), Select(e.val, k)), Select(m(st).val, k)))))
        out.append(('%s keeps its names' % m.name, lambda st, m=m: m(st).dom == e.dom))
    for i in L.ints():
        out.append(('the first %s names are known' % i.name, lambda st, i=i: forall(Str, lambda k: (Implies(And(src.has(k), rank(src.dom, k) < i(st)), Select(e.dom, k)), Select(src.dom, k)))))
    return out
Contract('fisx::Shell::setShellConstants', prop=P, modifies=['shellConstants'], loops=[consts_loop],
    throws=lambda c: [('unknown constant', INVALID, Not(keys(c.arg(0), lambda k: c.this.shellConstants.has(k))))],
    ensures=lambda c: [('given constants replace the old ones, others are kept', And(c.this.shellConstants.v.dom == c.old.shellConstants.v.dom,
        forall(Str, lambda k: Implies(c.this.shellConstants.has(k), c.this.shellConstants.v.val[k] == If(c.arg(0).has(k), c.arg(0).v.val[k], c.old.shellConstants.v.val[k])))))])
for g, f in (('getRadiativeTransitions', 'radiativeTransitions'), ('getNonradiativeTransitions', 'nonradiativeTransitions'), ('getAugerRatios', 'augerRatios'), ('getCosterKronigRatios', 'costerKronigRatios'),
             ('getFluorescenceRatios', 'fluorescenceRatios'), ('getShellConstants', 'shellConstants')):
    getter('fisx::Shell::' + g, f, P)
Contract('fisx::Shell::getFluorescenceYield', prop=P, inline=True, requires=lambda c: [('omega is one of the constants', c.this.shellConstants.has('omega'))], ensures=lambda c: [('the constant omega', c.result == c.this.shellConstants.v.val[lit('omega')])])

# ---- labels and rates become a map (the last of two equal labels wins)
AS, ARr = ArraySort(IntSort(), Str), ArraySort(IntSort(), RealSort())
def label_map(name, key):
    """dom/val arrays of the map filled with the first n labels"""
    D = Function(name + 'Dom', AS, IntSort(), MS[0]); V = Function(name + 'Val', AS, ARr, MS[1], IntSort(), MS[1])
    @S.unfold_rule(D)
    def _(l, n):
        return [Implies(n <= 0, D(l, n) == z3.K(Str, BoolVal(False))), Implies(n > 0, D(l, n) == Store(D(l, z3.simplify(n - 1)), key(sel(l, z3.simplify(n - 1))), BoolVal(True)))] + frame_rule(D, [l, n], [0], n)
    @S.unfold_rule(V)
    def _(l, v, v0, n):
        m = z3.simplify(n - 1)
        return [Implies(n <= 0, V(l, v, v0, n) == v0), Implies(n > 0, V(l, v, v0, n) == Store(V(l, v, v0, m), key(sel(l, m)), sel(v, m)))] + frame_rule(V, [l, v, v0, n], [0, 1], n)
    return D, V
UpDom, UpVal = label_map('Up', upper)
def filled(fns, pick):
    D, V = fns
    def sch(L):
        out = []
        l, v, v0 = pick(L.ctx)
        for m in L.maps(STR, REAL):
            for i in L.ints():
                out.append(('%s holds the first %s labels' % (m.name, i.name), lambda st, m=m, i=i: m(st).dom == D(l.a, i(st))))
                out.append(('%s holds the first %s values' % (m.name, i.name), lambda st, m=m, i=i: m(st).val == V(l.a, v.a, v0, i(st))))
        return out
    return sch
def given_nr(c):
    l, v = c.arg(0), c.arg(1)
    o = c.old.nonradiativeTransitions.v
    return MapVal(UpDom(l.a, l.n), UpVal(l.a, v.a, o.val, l.n), o.kt, o.vt)
class With:
    """a context whose object before the call is replaced in one field"""
    def __init__(self, c, **kw):
        self.c = c; self.kw = kw
    @property
    def old(self):
        return self
    @property
    def this(self):
        return self.c.this
    def __getattr__(self, n):
        if n in self.__dict__['kw']:
            return View(self.__dict__['kw'][n])
        return getattr(self.__dict__['c'].old, n)
PARM = lambda c: (c.arg(0), c.arg(1), c.old.nonradiativeTransitions.v.val)
Contract('fisx::Shell::setNonradiativeTransitions', sig='void (std::vector<std::string>, std::vector<double>)', prop=P, modifies=['augerRatios', 'costerKronigRatios', 'nonradiativeTransitions'], throws=lambda c: [], cases=shells(),
    requires=lambda c: [is_shell(c), ('a rate for every label', c.arg(1).n >= c.arg(0).n)], loops=[filled((UpDom, UpVal), PARM)],
    ensures=lambda c: nonrad_post(With(c, nonradiativeTransitions=given_nr(c))))

def keyed_map(name, key):
    """the same, filled in order from the first n entries of a map"""
    D = Function(name + 'DomM', MS[0], MS[1], IntSort(), MS[0]); V = Function(name + 'ValM', MS[0], MS[1], MS[1], IntSort(), MS[1])
    @S.unfold_rule(D)
    def _(d, v, n):
        return [Implies(n <= 0, D(d, v, n) == z3.K(Str, BoolVal(False))), Implies(n > 0, D(d, v, n) == Store(D(d, v, z3.simplify(n - 1)), key(keyat(d, z3.simplify(n - 1))), BoolVal(True)))]
    @S.unfold_rule(V)
    def _(d, v, v0, n):
        m = z3.simplify(n - 1)
        return [Implies(n <= 0, V(d, v, v0, n) == v0), Implies(n > 0, V(d, v, v0, n) == Store(V(d, v, v0, m), key(keyat(d, m)), sel(v, keyat(d, m))))]
    return D, V
UpDomM, UpValM = keyed_map('Up', upper)
def map_to_lists(fns, fnsm, v0of):
    """lists filled entry by entry from a map stand for the same map of labels"""
    D, V = fns; DM, VM = fnsm
    def sch(L):
        out = []
        src = L.ctx.arg(0); v0 = v0of(L.ctx)
        for l in L.vecs(STR):
            for i in L.ints():
                out.append(('%s holds the first %s labels of the map' % (l.name, i.name), lambda st, l=l, i=i: D(l(st).a, i(st)) == DM(src.dom, src.val, i(st))))
                for v in L.vecs(REAL):
                    out.append(('%s, %s hold the first %s entries of the map' % (l.name, v.name, i.name), lambda st, l=l, v=v, i=i: V(l(st).a, v(st).a, v0, i(st)) == VM(src.dom, src.val, v0, i(st))))
        return out
    return sch
def given_nrm(c):
    o = c.old.nonradiativeTransitions.v; s = c.arg(0)
    return MapVal(UpDomM(s.dom, s.val, s.size), UpValM(s.dom, s.val, o.val, s.size), o.kt, o.vt)
Contract('fisx::Shell::setNonradiativeTransitions', sig='void (std::map<std::string, double>)', prop=P, modifies=['augerRatios', 'costerKronigRatios', 'nonradiativeTransitions'], throws=lambda c: [], cases=shells(),
    requires=lambda c: [is_shell(c)], loops=[map_to_lists((UpDom, UpVal), (UpDomM, UpValM), lambda c: c.old.nonradiativeTransitions.v.val), len_is_counter],
    ensures=lambda c: nonrad_post(With(c, nonradiativeTransitions=given_nrm(c))))
def given_nrp(c):
    l, v = c.arg(0), c.arg(1)
    o = c.old.nonradiativeTransitions.v
    return MapVal(UpDom(l.a, c.arg(2)), UpVal(l.a, v.a, o.val, c.arg(2)), o.kt, o.vt)
Contract('fisx::Shell::setNonradiativeTransitions', sig='void (const char **, const double *, int)', prop=P, modifies=['augerRatios', 'costerKronigRatios', 'nonradiativeTransitions'], throws=lambda c: [], cases=shells(),
    requires=lambda c: [is_shell(c), ('arrays of that length', And(c.arg(2) >= 0, c.arg(0).n >= c.arg(2), c.arg(1).n >= c.arg(2)))], loops=[filled((UpDom, UpVal), PARM)],
    ensures=lambda c: nonrad_post(With(c, nonradiativeTransitions=given_nrp(c))))

# ---- radiative transitions
def rlabel(l):
    u = upper(l)
    return If(slen(u) == 2, scat(u, lit('2')), u)
def rkey(l):
    u = rlabel(l)
    return If(And(slen(u) == 5, u != TOTAL), ssub(u, IntVal(0), IntVal(4)), u)
def digit(s, i):
    return And(schar(s, IntVal(i)) >= 48, schar(s, IntVal(i)) <= 57)
def rvalid(l, name):
    u = rlabel(l)
    return If(And(slen(u) == 5, u != TOTAL), And(digit(u, 3), digit(u, 4)), Or(ssub(u, IntVal(0), slen(name)) == name, u == TOTAL))
RadDom, RadVal = label_map('Rad', rkey)
RadDomM, RadValM = keyed_map('Rad', rkey)
def all_valid(l, n, name):
    return forall(IntSort(), lambda i: (Implies(And(0 <= i, i < n), rvalid(Select(l.a, i), name)), Select(l.a, i)))
def nonneg_rates(v, n):
    return forall(IntSort(), lambda i: (Implies(And(0 <= i, i < n), Select(v.a, i) >= 0), Select(v.a, i)))
def rad_loop(nof):
    def sch(L):
        c = L.ctx
        out = filled((RadDom, RadVal), lambda c: (c.arg(0), c.arg(1), c.old.radiativeTransitions.v.val))(L)
        for i in L.ints():
            out.append(('the first %s labels are valid' % i.name, lambda st, i=i: all_valid(c.arg(0), i(st), c.this.name)))
        for m in L.maps(STR, REAL):
            out.append(('rates of %s are not negative' % m.name, lambda st, m=m: forall(Str, lambda k: (Implies(Select(m(st).dom, k), Select(m(st).val, k) >= 0), Select(m(st).val, k)))))
        return out
    return sch
def rad_post(m, c):
    f = c.this.fluorescenceRatios
    return [('the transitions are the given ones', And(c.this.radiativeTransitions.v.dom == m.dom, c.this.radiativeTransitions.v.val == m.val)),
        ('exactly the transitions with a positive rate have a ratio', forall(Str, lambda k: f.has(k) == And(Select(m.dom, k), Select(m.val, k) > 0, k != TOTAL))),
        ('each ratio is the share of the sum of the rates', forall(Str, lambda k: Implies(f.has(k), f[k] == Select(m.val, k) / Rates(m.dom, m.val, card(m.dom))))),
        ('ratios sum to one', Implies(Not(forall(Str, lambda k: Not(f.has(k)))), Total(f) == 1))]
def rad_of(c, n):
    o = c.old.radiativeTransitions.v
    return MapVal(RadDom(c.arg(0).a, n), RadVal(c.arg(0).a, c.arg(1).a, o.val, n), o.kt, o.vt)
RMOD = ['radiativeTransitions', 'fluorescenceRatios']
Contract('fisx::Shell::setRadiativeTransitions', sig='void (std::vector<std::string>, std::vector<double>)', prop=P, modifies=RMOD, opts=dict(paths=True), loops=[rad_loop(None)],
    requires=lambda c: [('a rate for every label', c.arg(1).n >= c.arg(0).n), ('rates are not negative', nonneg_rates(c.arg(1), c.arg(0).n))],
    throws=lambda c: [('invalid transition label', INVALID, Not(all_valid(c.arg(0), c.arg(0).n, c.this.name)))],
    ensures=lambda c: rad_post(rad_of(c, c.arg(0).n), c))
def rad_ofm(c):
    o = c.old.radiativeTransitions.v; s = c.arg(0)
    return MapVal(RadDomM(s.dom, s.val, s.size), RadValM(s.dom, s.val, o.val, s.size), o.kt, o.vt)
def keys_valid(m, name):
    return forall(IntSort(), lambda i: (Implies(And(0 <= i, i < m.size), rvalid(m.key(i), name)), m.key(i)))
def rad_lists(L):
    """lists filled from the map: labels are its keys, rates its values"""
    out = map_to_lists((RadDom, RadVal), (RadDomM, RadValM), lambda c: c.old.radiativeTransitions.v.val)(L)
    src = L.ctx.arg(0)
    for i in L.ints():
        for v in L.vecs(STR):
            out.append(('%s holds the first %s keys' % (v.name, i.name), lambda st, v=v, i=i: forall(IntSort(), lambda k: (Implies(And(0 <= k, k < i(st)), Select(v(st).a, k) == src.key(k)), Select(v(st).a, k)))))
        for v in L.vecs(REAL):
            out.append(('the first %s rates of %s are not negative' % (i.name, v.name), lambda st, v=v, i=i: nonneg_rates(v(st), i(st))))
    return out
Contract('fisx::Shell::setRadiativeTransitions', sig='void (std::map<std::string, double>)', prop=P, modifies=RMOD, loops=[rad_lists, len_is_counter],
    requires=lambda c: [('rates are not negative', nonneg(c.arg(0)))],
    throws=lambda c: [('invalid transition label', INVALID, Not(keys_valid(c.arg(0), c.this.name)))],
    ensures=lambda c: rad_post(rad_ofm(c), c))

Rad2Dom, Rad2Val = label_map('RadUpper', lambda l: rkey(upper(l)))
def rad_ptr(L):
    out = []
    c = L.ctx; l0, v0 = c.arg(0), c.arg(1); o = c.old.radiativeTransitions.v.val
    for i in L.ints():
        for l in L.vecs(STR):
            out.append(('%s holds the first %s labels' % (l.name, i.name), lambda st, l=l, i=i: RadDom(l(st).a, i(st)) == Rad2Dom(l0.a, i(st))))
            out.append(('%s is the first %s labels in upper case' % (l.name, i.name), lambda st, l=l, i=i: forall(IntSort(), lambda k: (Implies(And(0 <= k, k < i(st)), Select(l(st).a, k) == upper(Select(l0.a, k))), Select(l(st).a, k)))))
            for v in L.vecs(REAL):
                out.append(('%s, %s hold the first %s labels and rates' % (l.name, v.name, i.name), lambda st, l=l, v=v, i=i: RadVal(l(st).a, v(st).a, o, i(st)) == Rad2Val(l0.a, v0.a, o, i(st))))
        for v in L.vecs(REAL):
            out.append(('the first %s rates of %s are not negative' % (i.name, v.name), lambda st, v=v, i=i: nonneg_rates(v(st), i(st))))
    return out
def rad_ofp(c):
    o = c.old.radiativeTransitions.v; n = c.arg(2)
    return MapVal(Rad2Dom(c.arg(0).a, n), Rad2Val(c.arg(0).a, c.arg(1).a, o.val, n), o.kt, o.vt)
Contract('fisx::Shell::setRadiativeTransitions', sig='void (const char **, const double *, int)', prop=P, modifies=RMOD, loops=[rad_ptr],
    requires=lambda c: [('arrays of that length', And(c.arg(2) >= 0, c.arg(0).n >= c.arg(2), c.arg(1).n >= c.arg(2))), ('rates are not negative', nonneg_rates(c.arg(1), c.arg(2)))],
    throws=lambda c: [('invalid transition label', INVALID, Not(forall(IntSort(), lambda i: (Implies(And(0 <= i, i < c.arg(2)), rvalid(upper(Select(c.arg(0).a, i)), c.this.name)), Select(c.arg(0).a, i)))))],
    ensures=lambda c: rad_post(rad_ofp(c), c))

# ---- vacancy transfer
def ends(k, d):
    return ssub(k, slen(k) - slen(d), slen(d)) == d
Starts = sumif('StartSum', lambda k, v, p: ssub(k, IntVal(0), slen(p)) == p, (Str,))
Ends = sumif('EndSum', lambda k, v, d: ends(k, d), (Str,))
def to_dest(m, o, d):
    """share of the transitions of m from shell o that leave a vacancy in d (both of an o-dd transition count)"""
    p = scat(scat(o, lit('-')), d)
    return Starts(m.dom, m.val, p, card(m.dom)), Ends(m.dom, m.val, d, card(m.dom))
def at_least_two(m):
    return forall(Str, lambda k: (Implies(Select(m.dom, k), slen(k) >= 2), Select(m.dom, k)))
FL, AU, OM = lit('fluorescence'), lit('auger'), lit('omega')
def poss(L, **kw):
    return [i for i in L.ints(**kw) if i.root != 'this']
def vac_loop(L):
    out = []
    c = L.ctx; name, d = c.this.name, c.arg(0)
    ck = c.this.costerKronigRatios.v
    cm = c.this.shellConstants.v; au = c.this.augerRatios.v
    st_ = lambda m, n=None: Starts(m.dom, m.val, scat(scat(name, lit('-')), d), card(m.dom) if n is None else n)
    en_ = lambda m, n=None: Ends(m.dom, m.val, d, card(m.dom) if n is None else n)
    for m in L.maps(STR, REAL):
        e = m.entry
        # keys of the output
        out.append(('%s keeps its keys' % m.name, lambda st, m=m, e=e: m(st).dom == e.dom))
        for s in L.reals(mod=False):
            for i in poss(L):
                out.append(('!%s below %s multiplied by its constant (%s)' % (m.name, i.name, s.name), lambda st, m=m, i=i, e=e, s=s: forall(Str, lambda k: (Implies(And(Select(e.dom, k), rank(e.dom, k) < i(st)),
                    Select(m(st).val, k) == Select(e.val, k) * If(k == AU, 1 - s(st), Select(cm.val, If(k == FL, OM, k)))), Select(m(st).val, k)))))
        for i in poss(L):
            out.append(('!%s unchanged from %s on' % (m.name, i.name), lambda st, m=m, i=i, e=e: forall(Str, lambda k: (Implies(And(Select(e.dom, k), Not(rank(e.dom, k) < i(st))), Select(m(st).val, k) == Select(e.val, k)), Select(m(st).val, k)))))
        for i in poss(L):
            out.append(('%s keys are those of the first %s groups' % (m.name, i.name), lambda st, m=m, i=i, e=e: forall(Str, lambda k: (Select(m(st).dom, k) == Or(Select(e.dom, k), And(Select(ck.dom, k), rank(ck.dom, k) < i(st))), Select(m(st).dom, k)))))
            for lb, fn in (('start', st_), ('end', en_)):
                out.append(('%s[auger] is the entry plus the %s sum of the first %s' % (m.name, lb, i.name), lambda st, m=m, i=i, e=e, fn=fn: And(sel(m(st).val, AU) == sel(e.val, AU) + fn(au, i(st)), forall(Str, lambda k: (Implies(k != AU, Select(m(st).val, k) == Select(e.val, k)), Select(m(st).val, k))))))
            out.append(('%s of the first %s groups is the start sum' % (m.name, i.name), lambda st, m=m, i=i, e=e: forall(Str, lambda k: (Implies(And(Select(ck.dom, k), rank(ck.dom, k) < i(st)), Select(m(st).val, k) == st_(inner(ck, k))), Select(m(st).val, k)))))
            out.append(('%s of the first %s groups got the end sum' % (m.name, i.name), lambda st, m=m, i=i, e=e: forall(Str, lambda k: (Select(m(st).val, k) == Select(e.val, k) + If(And(Select(ck.dom, k), rank(ck.dom, k) < i(st)), en_(inner(ck, k)), RealVal(0)), Select(m(st).val, k)))))
            out.append(('%s changed only for the first %s groups' % (m.name, i.name), lambda st, m=m, i=i, e=e: forall(Str, lambda k: (Implies(Not(And(Select(ck.dom, k), rank(ck.dom, k) < i(st))), Select(m(st).val, k) == Select(e.val, k)), Select(m(st).val, k)))))
            # inside a group: the other counter is the group
            for g in poss(L, mod=False):
                for lb, fn in (('start', st_), ('end', en_)):
                    out.append(('%s of group %s is the entry plus the %s sum of the first %s' % (m.name, g.name, lb, i.name), lambda st, m=m, i=i, g=g, e=e, fn=fn: And(
                        sel(m(st).val, keyat(ck.dom, g(st))) == sel(e.val, keyat(ck.dom, g(st))) + fn(inner(ck, keyat(ck.dom, g(st))), i(st)),
                        forall(Str, lambda k: (Implies(k != keyat(ck.dom, g(st)), Select(m(st).val, k) == Select(e.val, k)), Select(m(st).val, k))))))
    # the sums before they are multiplied by the yields
    f = c.this.fluorescenceRatios.v; key = scat(name, d)
    for m in L.maps(STR, REAL) + [m for m in L.maps(STR, REAL, mod=False) if m.root != 'this']:
        out += [('!%s: fluorescence' % m.name, lambda st, m=m: sel(m(st).val, FL) == If(Select(f.dom, key), Select(f.val, key), RealVal(0))),
            ('!%s: auger' % m.name, lambda st, m=m: sel(m(st).val, AU) == st_(au) + en_(au))]
    for m in [m for m in L.maps(STR, REAL, mod=False) if m.root != 'this'] if not L.maps(STR, REAL) else []:
        out += [
            ('!%s: groups' % m.name, lambda st, m=m: forall(Str, lambda k: (Implies(Select(ck.dom, k), Select(m(st).val, k) == st_(inner(ck, k)) + en_(inner(ck, k))), Select(m(st).val, k)))),
            ('!%s: keys' % m.name, lambda st, m=m: forall(Str, lambda k: (Select(m(st).dom, k) == Or(k == FL, k == AU, Select(ck.dom, k)), Select(m(st).dom, k))))]
    for s in L.reals():
        for i in poss(L):
            out.append(('%s is the sum of the first %s constants' % (s.name, i.name), lambda st, s=s, i=i: s(st) == SumM(cm.dom, cm.val, i(st))))
    return out
def total_constants(c):
    m = c.this.shellConstants.v
    return SumM(m.dom, m.val, card(m.dom))
def vac_post(c):
    ck, r, d, n = c.this.costerKronigRatios.v, c.result, c.arg(0), c.this.name
    cm = c.this.shellConstants.v; f = c.this.fluorescenceRatios
    a, b = to_dest(c.this.augerRatios.v, n, d)
    k = FreshConst(Str, 'k')
    x, y = to_dest(inner(ck, k), n, d)
    return [('one entry each for fluorescence, Auger and every Coster-Kronig group', forall(Str, lambda k: r.has(k) == Or(k == FL, k == AU, Select(ck.dom, k)))),
        ('fluorescence: the ratio of the line to the destination times the fluorescence yield', r.v.val[FL] == If(f.has(scat(n, d)), f[scat(n, d)], RealVal(0)) * cm.val[OM]),
        ('Auger: the ratios of the transitions involving the destination times the Auger yield', r.v.val[AU] == (a + b) * (1 - total_constants(c))),
        ('Coster-Kronig: the ratios of the transitions of the group involving the destination times the yield of the group', ForAll([k], Implies(Select(ck.dom, k), Select(r.v.val, k) == (x + y) * Select(cm.val, k)), patterns=[Select(r.v.val, k)]))]
Contract('fisx::Shell::getDirectVacancyTransferRatios', prop=P, loops=[vac_loop], opts=dict(weight=9, paths=True),
    requires=lambda c: [('omega is one of the constants', c.this.shellConstants.has('omega')), ('every Coster-Kronig group has a constant', forall(Str, lambda k: (Implies(c.this.costerKronigRatios.has(k), And(c.this.shellConstants.has(k), k != FL, k != AU)), c.this.costerKronigRatios.has(k)))),
        ('labels have two characters', And(at_least_two(c.this.augerRatios.v), forall(Str, lambda k: (Implies(c.this.costerKronigRatios.has(k), at_least_two(inner(c.this.costerKronigRatios.v, k))), c.this.costerKronigRatios.has(k)))))],
    throws=lambda c: [('destination is not two characters', INVALID, slen(c.arg(0)) != 2), ('yields add up to more than one', DOMAIN, total_constants(c) > RealVal('1.0001'))],
    ensures=vac_post)

# ---- the constructor
IsInt = Function('text is an integer', Str, BoolSort()); IntOf = Function('integer of the text', Str, IntSort())
def one_digit(s):
    return Implies(slen(s) == 1, And(IsInt(s) == Or(*[s == lit(str(i)) for i in range(10)]), *[Implies(s == lit(str(i)), IntOf(s) == i) for i in range(10)]))
def int_of(s):
    l = litval(s)
    return IntVal(int(l)) if l is not None and l in '0123456789' and len(l) == 1 else IntOf(s)
Contract('fisx::Shell::StringToInteger', trusted='std::istringstream >> int: a text of one character is an integer exactly when it is a digit', out_args=(1,), outs={1: lambda c: int_of(c.arg(0))},
    ensures=lambda c: [('', c.result == IsInt(c.arg(0))), ('', one_digit(c.arg(0)))])
NINE = [lb for lb, _ in shells()]
def ctor_post(c):
    out = []
    for lb, d in shells():
        sub = int(lb[1:] or 0); names = ['omega'] + ['f%d%d' % (sub, j) for j in range(sub + 1, {'K': 0, 'L': 3, 'M': 5}[lb[0]] + 1)]
        is_ = c.arg(0) == lit(lb)
        out += [('%s: name and indices' % lb, Implies(is_, And(*[getattr(c.this, f) == v for f, v in d.items()]))),
            ('%s: its constants are the fluorescence yield and the Coster-Kronig yields to the higher subshells, all zero' % lb, Implies(is_, forall(Str, lambda k: (And(c.this.shellConstants.has(k) == Or(*[k == lit(n) for n in names]), Implies(c.this.shellConstants.has(k), c.this.shellConstants[k] == 0)), c.this.shellConstants.has(k)))))]
    return out
Contract('fisx::Shell::Shell', sig='void (std::string)', prop=P,
    cases=[(lb, {'@0': lit(lb)}) for lb in NINE] + [('other text', {'?': lambda c: And(*[c.arg(0) != lit(n) for n in NINE])})],
    # a text of two characters is its two characters
    axioms=lambda c: [Implies(And(slen(c.arg(0)) == 2, ssub(c.arg(0), IntVal(0), IntVal(1)) == lit(a), ssub(c.arg(0), IntVal(1), IntVal(1)) == lit(b)), c.arg(0) == lit(a + b)) for a in 'LM' for b in '12345'],
    throws=lambda c: [('not one of the nine shells', INVALID, And(*[c.arg(0) != lit(n) for n in NINE]))],
    ensures=ctor_post)
