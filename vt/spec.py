"""Specification functions (ghost) shared by the contracts, with the recursive
definitions the solver may unfold, and lemmas proved once by induction."""
import z3
from z3 import *
from values import *
import solver as S

I, Rl, B = IntSort(), RealSort(), BoolSort()
AR = ArraySort(I, Rl)

# SumV(a,n) = a[0]+...+a[n-1]
SumV = Function('SumV', AR, I, Rl)

@S.unfold_rule(SumV)
def _sumv(a, n):
    out = [Implies(n <= 0, SumV(a, n) == 0), Implies(n > 0, SumV(a, n) == SumV(a, n - 1) + sel(a, simplify(n - 1)))]
    out += frame_rule(SumV, [a, n], [0], n)
    if z3.is_app(a) and a.decl().kind() == Z3_OP_CONST_ARRAY:
        out.append(Implies(n >= 0, SumV(a, n) == ToReal(n) * a.arg(0)))
    if z3.is_app(a) and a.decl().kind() == Z3_OP_ITE:
        out.append(SumV(a, n) == If(a.arg(0), SumV(a.arg(1), n), SumV(a.arg(2), n)))
    return out

# SumM(dom,val,n) = sum of val[keyat(dom,i)], i<n   (in-order prefix sum of a map)
_summ = {}
def SumM(dom, val, n):
    ks = dom.sort().domain()
    nm = ks.name()
    if nm not in _summ:
        f = Function('SumM_' + nm, ArraySort(ks, B), ArraySort(ks, Rl), I, Rl)
        _summ[nm] = f
        S._ensure_card(ks)
        def rule(d, v, k, f=f):
            return [Implies(k <= 0, f(d, v, k) == 0), Implies(k > 0, f(d, v, k) == f(d, v, k - 1) + sel(v, keyat(d, simplify(k - 1))))]
        S.UNFOLD[f.name()] = rule
    return _summ[nm](dom, val, n)

def MapTotal(m):
    m = unfold(m) if isinstance(m, Val) else m
    return SumM(m.dom, m.val, card(m.dom))

def patok(e):
    """usable as a trigger: no interpreted boolean structure inside"""
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x):
            if x.decl().kind() in (Z3_OP_ITE, Z3_OP_AND, Z3_OP_OR, Z3_OP_NOT, Z3_OP_EQ, Z3_OP_IMPLIES, Z3_OP_LE, Z3_OP_GE, Z3_OP_LT, Z3_OP_GT):
                return False
            st += x.children()
    return True

def forall(sort_or_name, fn, pats=None, name='q'):
    """forall x. fn(x)"""
    s = sort_or_name
    v = FreshConst(s, name)
    body = fn(v)
    if isinstance(body, tuple):
        body, pats = body
    if pats is not None and all(patok(p) for p in (pats if isinstance(pats, list) else [pats])):
        try:
            return ForAll([v], body, patterns=[pats] if not isinstance(pats, list) else pats)
        except z3.Z3Exception:
            pass
    return ForAll([v], body)

def forall2(s1, s2, fn, name='q'):
    a = FreshConst(s1, name); b = FreshConst(s2, name)
    return ForAll([a, b], fn(a, b))

def idx(n, fn, name='i'):
    """forall 0<=i<n. fn(i)"""
    return forall(I, lambda i: Implies(And(0 <= i, i < n), fn(i)), name=name)

def keys(m, fn, name='k'):
    m = m.v if isinstance(m, View) else unfold(m)
    return forall(m.dom.sort().domain(), lambda k: Implies(Select(m.dom, k), fn(k)), name=name)

def peel(a, idxs):
    """the array below stores (indices collected); if-then-else with a common base is looked through"""
    while z3.is_app(a):
        k = a.decl().kind()
        if k == Z3_OP_STORE:
            idxs.append(a.arg(1)); a = a.arg(0)
        elif k == Z3_OP_ITE:
            l1, l2 = [], []
            x, y = peel(a.arg(1), l1), peel(a.arg(2), l2)
            if not x.eq(y):
                return a
            idxs += l1 + l2; a = x
        else:
            return a
    return a

def frame_rule(f, args, arrs, n):
    """f(.., store(a,i,v), .., n) == f(.., a, .., n) when i >= n, for the array positions arrs (f depends on a[0..n) only)"""
    cur = list(args); guard = []
    for p in arrs:
        cur[p] = peel(cur[p], guard)
    if not guard:
        return []
    u = {g.get_id(): g for g in guard}
    return [Implies(And(*[g >= n for g in u.values()]), f(*args) == f(*cur))]

class View:
    """readable access to a value inside contracts"""
    def __init__(self, v):
        self.__dict__['v'] = unfold(v) if isinstance(v, Packed) and not (v.t[0] == 'struct' and v.t[1] in OPAQUE) else v
    def __getattr__(self, nm):
        v = self.v
        if isinstance(v, StructVal):
            if nm not in v.f:
                raise Unsupported('contract refers to missing field %s' % nm)
            return view(v.f[nm])
        if isinstance(v, VecVal):
            if nm == 'n':
                return v.n
            if nm == 'a':
                return v.a
        if isinstance(v, MapVal):
            if nm in ('dom', 'val'):
                return getattr(v, nm)
        raise AttributeError(nm)
    def __getitem__(self, i):
        v = self.v
        if isinstance(i, str):
            i = strlit(i)
        if isinstance(i, int):
            i = IntVal(i)
        if isinstance(v, VecVal):
            return view(wrap(sel(v.a, i), v.et))
        if isinstance(v, MapVal):
            return view(wrap(sel(v.val, i), v.vt))
        raise Unsupported('index of view %s' % type(v).__name__)
    def get(self, k):
        """what operator[] yields: the value, or a default-constructed one when the key is absent"""
        if isinstance(k, str):
            k = strlit(k)
        m = self.v
        return view(ite_val(sel(m.dom, k), wrap(sel(m.val, k), m.vt), default_value(m.vt)))
    def has(self, k):
        if isinstance(k, str):
            k = strlit(k)
        return sel(self.v.dom, k)
    @property
    def size(self):
        return card(self.v.dom) if isinstance(self.v, MapVal) else self.v.n
    def packed(self):
        return pack(self.v)
    def key(self, i):
        return keyat(self.v.dom, i)

def view(v):
    if isinstance(v, Val):
        return View(v)
    return v

def same(a, b):
    """semantic equality of two values (vectors up to their length, maps on their domain)"""
    a = a.v if isinstance(a, View) else a
    b = b.v if isinstance(b, View) else b
    return val_same(a, b)

def val_same(a, b):
    if a is b:
        return TRUE
    if not isinstance(a, Val):
        return TRUE if a.eq(b) else a == b
    if isinstance(a, Packed) and isinstance(b, Packed) and a.e.eq(b.e):
        return TRUE
    if hidden(a):
        return a.e == b.e
    a = unfold(a); b = unfold(b)
    if isinstance(a, VecVal):
        return mkand(a.n == b.n, TRUE if a.a.eq(b.a) else forall(I, lambda i: Implies(And(0 <= i, i < a.n), elem_same(sel(a.a, i), sel(b.a, i), a.et)), name='vi'))
    if isinstance(a, MapVal):
        return mkand(TRUE if a.dom.eq(b.dom) else a.dom == b.dom,
                     TRUE if a.val.eq(b.val) else forall(a.dom.sort().domain(), lambda k: Implies(Select(a.dom, k), elem_same(sel(a.val, k), sel(b.val, k), a.vt)), name='mk'))
    if isinstance(a, StructVal):
        return mkand(*[val_same(a.f[f], b.f[f]) for f in a.f])
    return TRUE     # opaque parts (streams) are outside the model

def elem_same(x, y, t):
    if is_scalar(t):
        return x == y
    return val_same(wrap(x, t), wrap(y, t))

lit = strlit

# ---------------------------------------------------------------- generic sums
SUMS = {}       # sort name of element -> list of (fn, elem->Real)
def SumBy(name, et, f):
    """Sum of f(a[k]) for k<n over vectors with element type et; returns python callable (a, n)"""
    s = sort_of(et)
    fn = Function('SumBy_' + name, ArraySort(I, s), I, Rl)
    def rule(a, n):
        out = [Implies(n <= 0, fn(a, n) == 0), Implies(n > 0, fn(a, n) == fn(a, n - 1) + f(sel(a, simplify(n - 1))))]
        out += frame_rule(fn, [a, n], [0], n)
        if z3.is_app(a) and a.decl().kind() == Z3_OP_ITE:
            out.append(fn(a, n) == If(a.arg(0), fn(a.arg(1), n), fn(a.arg(2), n)))
        return out
    S.UNFOLD[fn.name()] = rule
    SUMS.setdefault(s.name(), []).append(fn)
    return fn

def fieldof(et, name):
    """element term -> term of one of its fields"""
    s = sort_of(et)
    fl = fields_of(et[1]) if et[0] == 'struct' else [('first', et[1]), ('second', et[2])]
    i = [n for n, _ in fl].index(name)
    return lambda e: (e.arg(i) if z3.is_app(e) and e.decl().eq(s.constructor(0)) else s.accessor(0, i)(e))

# finite-map total, algebraic definition (independent of the enumeration order)
_mt = {}
def MapTotalF(ks):
    nm = ks.name()
    if nm not in _mt:
        f = Function('MapTotal_' + nm, ArraySort(ks, B), ArraySort(ks, Rl), Rl)
        _mt[nm] = f
        def rule(d, v):
            out = []
            if z3.is_const_array(d) and is_false(d.arg(0)):
                out.append(f(d, v) == 0)
            # m[k] = x : both arrays stored at the same key
            if z3.is_app(d) and d.decl().kind() == Z3_OP_STORE and is_true(d.arg(2)):
                d0, k = d.arg(0), d.arg(1)
                # peel stores to the same key from the values
                v0 = v; x = None
                while z3.is_app(v0) and v0.decl().kind() == Z3_OP_STORE and v0.arg(1).eq(k):
                    if x is None:
                        x = v0.arg(2)
                    v0 = v0.arg(0)
                if x is None:
                    x = sel(v, k)
                out.append(f(d, v) == f(d0, v0) - If(Select(d0, k), Select(v0, k), 0) + x)
            elif z3.is_app(v) and v.decl().kind() == Z3_OP_STORE:
                k = v.arg(1)
                v0 = v
                while z3.is_app(v0) and v0.decl().kind() == Z3_OP_STORE and v0.arg(1).eq(k):
                    v0 = v0.arg(0)
                out.append(f(d, v) == f(d, v0) + If(Select(d, k), v.arg(2) - Select(v0, k), 0))
            elif z3.is_app(d) and d.decl().kind() == Z3_OP_ITE:
                out.append(f(d, v) == If(d.arg(0), f(d.arg(1), v), f(d.arg(2), v)))
            if z3.is_app(v) and v.decl().kind() == Z3_OP_ITE:
                out.append(f(d, v) == If(v.arg(0), f(d, v.arg(1)), f(d, v.arg(2))))
            # link with the enumeration
            out.append(f(d, v) == SumM(d, v, card(d)))
            return out
        S.UNFOLD[f.name()] = rule
    return _mt[nm]

def Total(m):
    m = m.v if isinstance(m, View) else (unfold(m) if isinstance(m, Val) else m)
    return MapTotalF(m.dom.sort().domain())(m.dom, m.val)
