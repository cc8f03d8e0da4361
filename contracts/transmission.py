from dsl import *
P = ['P12']
EPS = RealVal('19999999999999999/20000000000000000000000')  # the C++ literal 0.000001 as clang reports it
MP = ('map', REAL, REAL)

# k is one of the first n energies, or 0.000001 above one of them
Given = Function('GivenEnergy', ArraySort(IntSort(), RealSort()), RealSort(), IntSort(), BoolSort())
@S.unfold_rule(Given)
def _(e, k, n):
    p = sel(e, z3.simplify(n - 1))
    return [Implies(n <= 0, Not(Given(e, k, n))), Implies(n > 0, Given(e, k, n) == Or(p == k, p + EPS == k, Given(e, k, n - 1)))]

def label_pre(c, nm, cm):
    o = c.this
    return [('renamed', INVALID, And(slen(o.name) > 0, slen(nm) > 0)), ('comment changed', INVALID, And(slen(o.comment) > 0, slen(cm) > 0))]
def label_post(c, nm, cm):
    return [('name set when given', c.this.name == If(slen(nm) > 0, nm, c.old.name)), ('comment set when given', c.this.comment == If(slen(cm) > 0, cm, c.old.comment))]

def checked_map(L):
    t = L.ctx.arg(0)
    out = []
    if not hasattr(t.v, 'dom'):
        return out
    for i in L.ints():
        out.append(('entries before %s are not negative' % i.name, lambda st, i=i: idx(i(st), lambda k: And(t.key(k) >= 0, Select(t.val, t.key(k)) >= 0))))
        for s in L.reals():
            out.append(('%s is the last energy seen' % s.name, lambda st, i=i, s=s: s(st) == If(i(st) == 0, RealVal(-1), t.key(i(st) - 1))))
    return out

Contract('fisx::TransmissionTable::setTransmissionTable', sig='void (const std::map<double, double> &, const std::string &, const std::string &)', prop=P,
    modifies=['transmissionTable', 'name', 'comment'], exc_modifies=[], loops=[checked_map],
    throws=lambda c: [('negative energy or transmission', INVALID, Not(idx(c.arg(0).size, lambda i: And(c.arg(0).key(i) >= 0, Select(c.arg(0).val, c.arg(0).key(i)) >= 0))))] + label_pre(c, c.arg(1), c.arg(2)),
    ensures=lambda c: [('table stored', same(c.this.transmissionTable, c.arg(0)))] + label_post(c, c.arg(1), c.arg(2)))

def checked_vec(L):
    e, t = L.ctx.arg(0), L.ctx.arg(1)
    out = []
    for i in L.ints():
        out.append(('entries before %s are valid' % i.name, lambda st, i=i: idx(i(st), lambda k: And(e[k] >= 0, t[k] >= 0, Implies(k > 0, e[k - 1] <= e[k])))))
        for s in L.reals():
            out.append(('%s is the last energy seen' % s.name, lambda st, i=i, s=s: s(st) == If(i(st) == 0, RealVal(-1), e[i(st) - 1])))
    return out

def clear_of_previous(e, j):
    return Or(j == 0, e[j] > e[j - 1] + EPS)
def second_of_pair(e, n, j):
    return And(j >= 1, e[j] == e[j - 1], Or(j == 1, e[j - 1] > e[j - 2] + EPS), Or(j + 1 >= n, e[j + 1] > e[j] + EPS))
def points(tab, e, t, n, upto):
    return [('every energy apart from the previous one is tabulated with its transmission', idx(upto, lambda j: Implies(clear_of_previous(e, j), And(sel(tab.dom, e[j]), sel(tab.val, e[j]) == t[j])))),
            ('the second value of a repeated energy is tabulated just above it', idx(upto, lambda j: Implies(second_of_pair(e, n, j), And(sel(tab.dom, e[j] + EPS), sel(tab.val, e[j] + EPS) == t[j])))),
            ('nothing else is tabulated', forall(RealSort(), lambda k: (Implies(Select(tab.dom, k), Given(e.a, k, upto)), Select(tab.dom, k))))]
def fill(L):
    e, t = L.ctx.arg(0), L.ctx.arg(1)
    out = []
    for m in L.maps(REAL, REAL):
        for i in L.ints():
            for q in range(3):
                out.append(('%s up to %s: %d' % (m.name, i.name, q), lambda st, m=m, i=i, q=q: points(m(st), e, t, e.n, i(st))[q][1]))
            out.append(('keys of %s below %s' % (m.name, i.name), lambda st, m=m, i=i: forall(RealSort(), lambda k: (Implies(Select(m(st).dom, k), And(i(st) > 0, k <= e[i(st) - 1] + EPS)), Select(m(st).dom, k)))))
            out.append(('energies before %s ascend' % i.name, lambda st, i=i: idx(i(st), lambda j: e[j] <= e[i(st) - 1])))
    return out

def vec_invalid(c):
    e, t = c.arg(0), c.arg(1)
    return Not(idx(e.n, lambda k: And(e[k] >= 0, t[k] >= 0, Implies(k > 0, e[k - 1] <= e[k]))))
Contract('fisx::TransmissionTable::setTransmissionTable', sig='void (const std::vector<double> &, const std::vector<double> &, const std::string &, const std::string &)', prop=P,
    modifies=['transmissionTable', 'name', 'comment'], exc_modifies=[], loops=[checked_vec, fill],
    throws=lambda c: label_pre(c, c.arg(2), c.arg(3)) + [('different lengths', INVALID, c.arg(0).n != c.arg(1).n), ('negative or descending', INVALID, And(c.arg(0).n == c.arg(1).n, vec_invalid(c)))],
    ensures=lambda c: points(c.this.transmissionTable, c.arg(0), c.arg(1), c.arg(0).n, c.arg(0).n) + label_post(c, c.arg(2), c.arg(3)))

def interp(tab, e, r):
    n = tab.size
    val = lambda i: Select(tab.val, tab.key(i))
    br = lambda i: And(tab.key(i) <= e, e < tab.key(i + 1))
    return [('no table means no attenuation', Implies(n == 0, r == 1)),
            ('below the table the first value', Implies(And(n > 0, e <= tab.key(IntVal(0))), r == val(IntVal(0)))),
            ('above the table the last value', Implies(And(n > 0, e >= tab.key(n - 1)), r == val(n - 1))),
            ('in between the line through the neighbours', idx(n - 1, lambda i: Implies(br(i), (tab.key(i + 1) - tab.key(i)) * r == (e - tab.key(i)) * val(i + 1) + (tab.key(i + 1) - e) * val(i)))),
            ('never outside the neighbouring values', idx(n - 1, lambda i: Implies(br(i), And(Or(r >= val(i), r >= val(i + 1)), Or(r <= val(i), r <= val(i + 1))))))]
TR = Contract('fisx::TransmissionTable::getTransmission', sig='double (const double &) const', prop=P, pure=True, throws=lambda c: [], ensures=lambda c: interp(c.this.transmissionTable, c.arg(0), c.result))

Contract('fisx::TransmissionTable::getTransmission', sig='std::vector<double> (const std::vector<double> &) const', prop=P, throws=lambda c: [],
    loops=[each_prefix('value of the single query', lambda c, x, e, k: x == TR.puref(c.this, c.arg(0)[k]))],
    ensures=lambda c: [('one value per energy', c.result.n == c.arg(0).n), ('each is the value of the single query', idx(c.arg(0).n, lambda i: c.result[i] == TR.puref(c.this, c.arg(0)[i])))])
getter('fisx::TransmissionTable::getTransmissionTable', 'transmissionTable', P)
getter('fisx::TransmissionTable::getName', 'name', P)
getter('fisx::TransmissionTable::getComment', 'comment', P)
setter('fisx::TransmissionTable::setName', 'name', P)
setter('fisx::TransmissionTable::setComment', 'comment', P)
def fresh_table(c):
    t = c.this.transmissionTable
    return [('transmits everything', And(t.has(RealVal(0)), t.v.val[RealVal(0)] == 1, forall(RealSort(), lambda k: Implies(t.has(k), k == 0))))]
Contract('fisx::TransmissionTable::TransmissionTable', sig='void ()', prop=P, throws=lambda c: [], ensures=fresh_table)
Contract('fisx::TransmissionTable::TransmissionTable', sig='void (const std::string &, const std::string &)', prop=P, throws=lambda c: [], ensures=lambda c: fresh_table(c) + [('labels stored', And(c.this.name == c.arg(0), c.this.comment == c.arg(1)))])
