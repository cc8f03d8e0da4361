"""Discharging obligations: ground instantiation of the defining axioms of the
specification functions, then z3 (several configurations); cvc5 as a second
back end in the thorough tier."""
import z3, time, os, subprocess, tempfile
from z3 import *
from values import *
from values import _litname

# registry: decl name -> function(args) -> list of facts
UNFOLD = {}
STATS = dict(queries=0, time=0.0, by={})

def specfn(name, *sorts):
    return Function(name, *sorts)

def unfold_rule(fn):
    def deco(rule):
        UNFOLD[fn.name()] = rule
        return rule
    return deco

# mathematical functions ------------------------------------------------
R = RealSort()
fexp = Function('exp', R, R)
flog = Function('log', R, R)
fsqrt = Function('sqrt', R, R)
fsin = Function('sin', R, R)
fcos = Function('cos', R, R)
facos = Function('acos', R, R)
fpow = Function('pow', R, R, R)
ferf = Function('erf', R, R)
PI = None

@unfold_rule(fexp)
def _exp(x):
    return [fexp(x) > 0, fexp(RealVal(0)) == 1, Implies(x <= 0, fexp(x) <= 1), Implies(x < 0, fexp(x) < 1),
            Implies(x > 0, fexp(x) > 1), fexp(x) >= 1 + x] + \
           ([flog(fexp(x)) == x] if True else [])

@unfold_rule(flog)
def _log(x):
    q = []
    if z3.is_app(x) and x.decl().kind() == Z3_OP_DIV:
        a, b = x.arg(0), x.arg(1)
        q = [Implies(And(a > 0, b > 0), flog(x) == flog(a) - flog(b))]
    return q + [Implies(x > 0, fexp(flog(x)) == x), flog(RealVal(1)) == 0, Implies(x > 1, flog(x) > 0),
            Implies(And(x > 0, x < 1), flog(x) < 0)]

@unfold_rule(fsqrt)
def _sqrt(x):
    return [Implies(x >= 0, And(fsqrt(x) >= 0, fsqrt(x) * fsqrt(x) == x)), Implies(x > 0, fsqrt(x) > 0)]

@unfold_rule(fsin)
def _sin(x):
    return [fsin(x) <= 1, fsin(x) >= -1]

@unfold_rule(fcos)
def _cos(x):
    return [fcos(x) <= 1, fcos(x) >= -1]

@unfold_rule(slen)
def _slen(s):
    l = litval(s)
    if l is not None:
        return [slen(s) == len(l)]
    out = [slen(s) >= 0]
    if z3.is_app(s) and s.decl().eq(scat):
        out.append(slen(s) == slen(s.arg(0)) + slen(s.arg(1)))
    if z3.is_app(s) and s.decl().eq(sofc):
        out.append(slen(s) == 1)
    out.append((slen(s) == 0) == (s == strlit('')))
    return out

@unfold_rule(ssub)
def _ssub(s, i, n):
    out = [Implies(And(i == 0, n >= slen(s)), ssub(s, i, n) == s),
           Implies(And(i >= 0, i <= slen(s), n >= 0), slen(ssub(s, i, n)) == If(i + n <= slen(s), n, slen(s) - i))]
    return out

@unfold_rule(slt)
def _slt(a, b):
    return [Implies(slt(a, b), Not(slt(b, a))), Implies(a == b, Not(slt(a, b))), Or(a == b, slt(a, b), slt(b, a))]

def _card_rules(ks):
    c, ka, rk = card_fn(ks)
    def rule(D, *rest):
        out = [c(D) >= 0]
        if z3.is_app(D):
            k = D.decl().kind()
            if k == Z3_OP_STORE:
                D0, key, v = D.arg(0), D.arg(1), D.arg(2)
                if is_true(v):
                    out.append(c(D) == c(D0) + If(Select(D0, key), 0, 1))
                elif is_false(v):
                    out.append(c(D) == c(D0) - If(Select(D0, key), 1, 0))
            elif k == Z3_OP_CONST_ARRAY:
                out.append(c(D) == 0 if is_false(D.arg(0)) else c(D) >= 0)
            elif k == Z3_OP_ITE:
                out.append(c(D) == If(D.arg(0), c(D.arg(1)), c(D.arg(2))))
        from spec import patok
        if not patok(D):
            if D.get_id() not in _itename:
                _itename[D.get_id()] = (FreshConst(D.sort(), 'dom'), D)
            nm = _itename[D.get_id()][0]
            out.append(nm == D); D = nm
        i = Const('qi', IntSort()); j = Const('qj', IntSort()); kk = Const('qk_' + ks.name(), ks)
        out.append(ForAll([i], Implies(And(0 <= i, i < c(D)), And(Select(D, ka(D, i)), rk(D, ka(D, i)) == i)), patterns=[ka(D, i)]))
        out.append(ForAll([kk], Implies(Select(D, kk), And(0 <= rk(D, kk), rk(D, kk) < c(D), ka(D, rk(D, kk)) == kk)), patterns=[Select(D, kk)] if not _patbad(D) else []))
        if ks.kind() in (Z3_REAL_SORT, Z3_INT_SORT):
            out.append(ForAll([i, j], Implies(And(0 <= i, i < j, j < c(D)), ka(D, i) < ka(D, j)), patterns=[MultiPattern(ka(D, i), ka(D, j))]))
        return out
    return rule

def _patbad(D):
    return False

def _ensure_card(ks):
    c, ka, rk = card_fn(ks)
    if c.name() not in UNFOLD:
        r = _card_rules(ks)
        UNFOLD[c.name()] = r; UNFOLD[ka.name()] = r; UNFOLD[rk.name()] = r

for _s in (Str, IntSort(), RealSort()):
    _ensure_card(_s)

FUEL = 3
CAT_MONO = True

_gacache = {}
def _ground_apps(root):
    """ground applications of the registered functions and string literals in an expression (memoised)"""
    k = root.get_id()
    r = _gacache.get(k)
    if r is not None:
        return r[1], r[2]
    if len(_gacache) > 60000:
        _gacache.clear()
    seen = set(); ground = {}; apps = []; lits = []
    st = [(root, False)]
    while st:
        e, fin = st.pop()
        i = e.get_id()
        if fin:
            if z3.is_var(e) or z3.is_quantifier(e):
                g = False
            else:
                ch = e.children()
                g = all([ground[c.get_id()] for c in ch])
                if g and z3.is_app(e):
                    if e.decl().name() in UNFOLD:
                        apps.append(e)
                    if not ch and i in _litname:
                        lits.append(e)
                elif not g and z3.is_app(e) and len(ch) == 2 and ground[ch[0].get_id()] and e.decl().name().startswith(('rank_', 'keyat_')):
                    apps.append(card(ch[0]))
            ground[i] = g
            continue
        if i in seen:
            continue
        seen.add(i)
        st.append((e, True))
        if z3.is_quantifier(e):
            st.append((e.body(), False))
        else:
            for c in e.children():
                st.append((c, False))
    _gacache[k] = (root, apps, lits)
    return apps, lits

_ufcache = {}
def _unfolded(a):
    k = a.get_id()
    r = _ufcache.get(k)
    if r is None:
        if len(_ufcache) > 60000:
            _ufcache.clear()
        r = _ufcache[k] = (a, UNFOLD[a.decl().name()](*a.children()))
    return r[1]

def instantiate(exprs, fuel=None, extra_rules=None):
    """defining facts for every ground application of a registered function"""
    fuel = FUEL if fuel is None else fuel
    facts = []; done = set()
    lits = {}
    expargs = {}; logargs = {}; sinargs = {}
    from values import _litname as _litname_ref
    def collect(es):
        apps = []
        for root in es:
            ap, li = _ground_apps(root)
            for e in ap:
                if e.get_id() not in done:
                    done.add(e.get_id()); apps.append(e)
            for e in li:
                lits[e.get_id()] = e
        return apps
    todo = list(exprs)
    cardkeys = set()
    for depth in range(fuel):
        apps = collect(todo)
        todo = []
        for a in apps:
            nm = a.decl().name()
            if nm.startswith(('card_', 'keyat_', 'rank_')):
                key = (a.decl().domain(0).name(), a.arg(0).get_id())
                if key in cardkeys:
                    continue
                cardkeys.add(key)
            fs = _unfolded(a)
            todo += fs
            if nm == 'exp':
                expargs[a.arg(0).get_id()] = a.arg(0)
            if nm == 'log':
                logargs[a.arg(0).get_id()] = a.arg(0)
        facts += todo
        if not todo:
            break
    collect(todo)
    # literal distinctness + characters
    if len(lits) > 1:
        facts.append(Distinct(*lits.values()))
    for i, e in lits.items():
        facts.append(slen(e) == len(_litname_ref[i]))
    el = list(expargs.values())
    if 1 < len(el) <= 6:
        for x in range(len(el)):
            for y in range(len(el)):
                if x != y:
                    facts.append(Implies(el[x] < el[y], fexp(el[x]) < fexp(el[y])))
    el = list(logargs.values())
    if 1 < len(el) <= 12:
        for x in range(len(el)):
            for y in range(len(el)):
                if x != y:
                    facts.append(Implies(And(0 < el[x], el[x] < el[y]), flog(el[x]) < flog(el[y])))
    return facts

_itename = {}
def name_ites(es):
    """ground if-then-else terms below quantifiers get a name, so that triggers exist"""
    out = []; defs = {}
    for e in es:
        subs = {}
        seen = set(); ground = {}
        def isg(x):
            i = x.get_id()
            if i not in ground:
                ground[i] = not z3.is_var(x) and not z3.is_quantifier(x) and all(isg(c) for c in x.children())
            return ground[i]
        def walk(x, inq):
            k = (x.get_id(), inq)
            if k in seen:
                return
            seen.add(k)
            if z3.is_quantifier(x):
                walk(x.body(), True); return
            if inq and z3.is_app(x) and x.decl().kind() == Z3_OP_ITE and x.sort().kind() in (Z3_ARRAY_SORT, Z3_DATATYPE_SORT, Z3_UNINTERPRETED_SORT) and isg(x):
                i = x.get_id()
                if i not in _itename:
                    _itename[i] = (FreshConst(x.sort(), 'ite'), x)
                subs[i] = _itename[i]
                return
            for c in x.children():
                walk(c, inq)
        walk(e, False)
        if subs:
            for c, x in subs.values():
                defs[c.get_id()] = c == x
            e = z3.substitute(e, *[(x, c) for c, x in subs.values()])
        out.append(e)
    return out + list(defs.values())

def skolemize(goal):
    """split a goal: returns list of (extra assumptions, goal)"""
    out = []
    global SKOLEMS
    SKOLEMS = []
    def go(g, hyps):
        if z3.is_quantifier(g) and g.is_forall():
            vs = [FreshConst(g.var_sort(i), 'sk_' + g.var_name(i).split('!')[0]) for i in range(g.num_vars())]
            SKOLEMS.extend(vs)
            go(substitute_vars(g.body(), *reversed(vs)), hyps)
        elif z3.is_and(g):
            for c in g.children():
                go(c, hyps)
        elif z3.is_implies(g):
            go(g.arg(1), hyps + [g.arg(0)])
        else:
            out.append((hyps, g))
    go(goal, [])
    return out

SKOLEMS = []
def at_skolems(hyps, sks):
    """instances of the universally quantified hypotheses at the goal's skolem constants"""
    out = []
    if not sks or len(sks) > 4:
        return out
    for h in hyps:
        gs = [h]
        guards = []
        if z3.is_or(h) or z3.is_implies(h):
            qs = [c for c in h.children() if z3.is_quantifier(c) and c.is_forall()]
            if len(qs) != 1:
                continue
            q = qs[0]
        elif z3.is_quantifier(h) and h.is_forall():
            q = h
        elif z3.is_and(h):
            out += at_skolems(h.children(), sks); continue
        else:
            continue
        if q.num_vars() != 1:
            continue
        for k in sks:
            if k.sort() == q.var_sort(0):
                inst = z3.substitute_vars(q.body(), k)
                out.append(inst if q.eq(h) else z3.substitute(h, (q, inst)))
    return out

class Result:
    __slots__ = ('status', 'backend', 'time', 'model', 'smt2', 'reason')
    def __init__(self, status, backend='', time=0.0, model=None, smt2=None, reason=''):
        self.status = status; self.backend = backend; self.time = time; self.model = model; self.smt2 = smt2; self.reason = reason

def cached(f):
    memo = {}
    def g(e):
        k = e.get_id()
        if k not in memo:
            if len(memo) > 50000:
                memo.clear()
            memo[k] = (e, f(e))
        return memo[k][1]
    return g

@cached
def hasq(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st += x.children()
    return False

def _check(assertions, timeout_ms, cfg):
    s = Solver()
    if cfg.get('qf'):
        cfg = {}
        n = len(assertions)
        assertions = [a for a in assertions if not hasq(a)]
        timeout_ms = min(timeout_ms, 3000)
    if cfg.get('core'):
        s = SimpleSolver()
    s.set('timeout', int(timeout_ms))
    for k, v in cfg.items():
        if k != 'core':
            s.set(k, v)
    for a in assertions:
        s.add(a)
    t = time.time()
    r = s.check()
    dt = time.time() - t
    STATS['queries'] += 1; STATS['time'] += dt
    return r, s, dt

CONFIGS = [('z3/core', {'core': True, 'smt.mbqi': False}), ('z3/qf', {'qf': True}), ('z3/default', {}), ('z3/ematch', {'smt.mbqi': False}), ('z3/arith2', {'smt.mbqi': False, 'smt.arith.solver': 2}), ('z3/seed7', {'smt.mbqi': False, 'smt.random_seed': 7})]

def occurs(k, g, hyps):
    st = [g] + list(hyps); seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if x.eq(k):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st += x.children()
    return False

SPLIT = 0        # seconds for a proof by cases on conditional values (0: not tried)
LIGHT_MS = 250
_qcache = {}
def qinfo(e):
    k = e.get_id(); r = _qcache.get(k)
    if r is None:
        if len(_qcache) > 60000:
            _qcache.clear()
        seen = set(); st = [e]; q = False; cs = set()
        while st:
            x = st.pop(); i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                q = True; st.append(x.body())
            else:
                if z3.is_app(x):
                    if x.num_args() == 0 and x.decl().kind() == Z3_OP_UNINTERPRETED and x.sort().kind() == Z3_ARRAY_SORT:
                        cs.add(i)
                    st += x.children()
        r = _qcache[k] = (e, q, cs)
    return r

def quantified(pc):
    return sum(1 for f in pc if qinfo(f)[1]) > 4

def lighter(pc, goal):
    """smaller sets of assumptions that are often enough: the quantifier-free ones; those and the quantified ones about the same arrays as the goal"""
    ground = [f for f in pc if not qinfo(f)[1]]
    yield ground
    cs = set()
    for g in goal:
        cs |= qinfo(g)[2]
    yield [f for f in pc if not qinfo(f)[1] or qinfo(f)[2] and qinfo(f)[2] <= cs]
    yield [f for f in pc if not qinfo(f)[1] or qinfo(f)[2] & cs and len(qinfo(f)[2] - cs) <= 2]

def prove(pc, goal, timeout=5.0, configs=None, want_model=False, extra=()):
    """valid | failed(sat: model) | unknown ; all parts of the split goal have to hold"""
    t0 = time.time()
    used = []
    parts = skolemize(goal); sks = SKOLEMS
    for hyps, g in parts:
        if is_true(g):
            continue
        base = list(pc) + list(extra) + hyps
        base = name_ites(base + at_skolems(base, [k for k in sks if occurs(k, g, hyps)]) + [mknot(g)])
        facts = instantiate(base)
        asr = base + facts
        ok = False; last = None
        if quantified(pc):
            for few in lighter(list(pc) + list(extra), hyps + [g]):
                b1 = few + hyps
                b1 = name_ites(b1 + at_skolems(b1, [k for k in sks if occurs(k, g, hyps)]) + [mknot(g)])
                r, s, dt = _check(b1 + instantiate(b1), LIGHT_MS, CONFIGS[0][1])
                if r == unsat:
                    ok = True; used.append('z3/ematch'); break
            if ok:
                continue
        for nm, cfg in (configs or CONFIGS[:3]):
            r, s, dt = _check(asr, timeout * 1000, cfg)
            if r == unsat:
                ok = True; used.append(nm); break
            if cfg is CONFIGS[0][1] and SPLIT:
                b0 = list(pc) + list(extra) + hyps
                b0 = name_lookups([mknot(g)] + b0 + at_skolems(b0, [k for k in sks if occurs(k, g, hyps)]))
                if split_prove([z3.simplify(b) for b in b0[1:]], z3.simplify(b0[0]), 4.0, time.time() + SPLIT, CONFIGS[:2]):
                    ok = True; used.append('z3/cases'); break
            if cfg.get('qf') and last is not None:
                continue        # a model of the quantifier-free part proves nothing
            last = (r, s)
            if r == sat and not any(z3.is_quantifier(x) for x in asr):
                break
        if not ok:
            r, s = last
            m = None
            if want_model:
                try:
                    m = s.model()
                except Exception:
                    m = None
            return Result('failed' if r == sat else 'unknown', nm, time.time() - t0, m, s.sexpr() if want_model else None, str(r) + ' ' + (s.reason_unknown() if r == unknown else ''))
    return Result('valid', ','.join(sorted(set(used))) or 'trivial', time.time() - t0)

STORESEL = {}
def _apps(e, names):
    out = {}; seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() in names:
                out[x.get_id()] = x
            st += x.children()
    return list(out.values())

def log_leaf(asr, ng, verbose=False):
    return log_leaf1(asr, ng, 400, verbose) or log_leaf1(asr, ng, 2500, verbose)

def log_leaf1(asr, ng, ms, verbose):
    """refute a negated goal about logarithms and products: the signs and orders of the arguments are proved first
    from the linear assumptions, then the goal is a polynomial identity over the logarithms"""
    lin = [a for a in asr if not _nonlin(a)]
    inst = None
    def holds(g):
        nonlocal inst
        if inst is None:
            inst = instantiate(lin)
        r, s, dt = _check(lin + inst + [mknot(g)], ms, {'smt.mbqi': False})
        if verbose: print('      ', 'holds' if r == unsat else 'not shown', g.sexpr()[:200].replace('\n', ' '), round(dt, 2))
        return r == unsat
    facts = []; g = ng; atoms = {}
    ix = _indices(g); done = set()
    for i in range(len(ix)):
        for j in range(i):
            if j not in done and i not in done and holds(ix[i] == ix[j]):
                g = z3.substitute(g, (ix[i], ix[j])); done.add(i)
    for _ in range(3):
        ls = _apps(g, ('log',)); sub = []
        for l in ls:
            x = l.arg(0)
            if z3.is_app(x) and x.decl().kind() in (Z3_OP_DIV, Z3_OP_MUL):
                fs = x.children(); parts = [(c, 1 if i == 0 or x.decl().kind() == Z3_OP_MUL else -1) for i, c in enumerate(fs)]
                for c, _s in parts:
                    if c.get_id() not in atoms:
                        atoms[c.get_id()] = (c, holds(c > 0))
                if all(atoms[c.get_id()][1] for c, _s in parts):
                    sub.append((l, z3.Sum([_s * flog(c) for c, _s in parts])))
            elif z3.is_app(x) and x.decl().name() == 'exp':
                sub.append((l, x.arg(0)))
            elif x.get_id() not in atoms:
                atoms[x.get_id()] = (x, holds(x > 0))
        if not sub:
            break
        g = z3.substitute(g, *sub)
    pos = [c for c, ok in atoms.values() if ok]
    for i in range(len(pos)):
        for j in range(i):
            if holds(pos[i] == pos[j]):
                g = z3.substitute(g, (flog(pos[i]), flog(pos[j]))); break
    args = {}
    for d in _divisors(g):
        for l in _apps(d, ('log',)):
            args[l.arg(0).get_id()] = l.arg(0)
    args = list(args.values())
    for i in range(len(args)):
        for j in range(i):
            a, b = args[i], args[j]
            for x, y in ((a, b), (b, a)):
                if holds(x < y):
                    facts.append(flog(x) < flog(y)); break
    for e in _apps(g, ('exp',)):
        facts.append(e > 0)
    # logarithms and exponentials become plain variables; a quotient is its defining product
    vs = {}
    ts = _apps(g, ('log', 'exp'))
    for f in facts:
        ts += _apps(f, ('log', 'exp'))
    ts.sort(key=lambda t: -len(t.sexpr()))
    for t in ts:
        vs.setdefault(t.get_id(), (t, FreshConst(R, 'lg')))
    def repl(e):
        return z3.substitute(e, *vs.values()) if vs else e
    q = [repl(f) for f in facts]; gg = repl(g)
    k = 0
    while True:
        ds = [d for d in _divs(gg)]
        if not ds:
            break
        d = ds[0]; k += 1
        v = FreshConst(R, 'quot')
        q.append(Or(d.arg(1) == 0, v * d.arg(1) == d.arg(0)))
        gg = z3.substitute(gg, (d, v)); q = [z3.substitute(x, (d, v)) for x in q]
        if k > 12:
            break
    r, s, dt = _check(q + [gg], 4000, {})
    if verbose: print('      log leaf', r, round(dt, 2), [x.sexpr()[:200] for x in q + [gg]])
    return r == unsat

def _divs(e):
    out = []; seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == Z3_OP_DIV and not z3.is_rational_value(x.arg(1)) and not any(_divs(c) for c in x.children()):
                out.append(x)
            st += x.children()
    return out

def _divisors(e):
    out = {}; seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == Z3_OP_DIV:
                out[x.arg(1).get_id()] = x.arg(1)
            st += x.children()
    return list(out.values())

def _conds(es):
    """conditions of the ground if-then-else terms, most frequent first"""
    cnt = {}; keep = {}; seen = set(); gr = {}; hasite = {}
    def isg(x):
        i = x.get_id()
        if i not in gr:
            if z3.is_var(x) or z3.is_quantifier(x):
                gr[i] = False
            else:
                gr[i] = all([isg(c) for c in x.children()])
        return gr[i]
    def ite_in(x):
        i = x.get_id()
        if i not in hasite:
            hasite[i] = z3.is_app(x) and (x.decl().kind() == Z3_OP_ITE or any([ite_in(c) for c in x.children()]))
        return hasite[i]
    def walk(x):
        i = x.get_id()
        if i in seen:
            return
        seen.add(i)
        if z3.is_quantifier(x):
            walk(x.body()); return
        if z3.is_app(x) and x.decl().kind() == Z3_OP_ITE and x.sort().kind() != Z3_BOOL_SORT and isg(x.arg(0)) and not ite_in(x.arg(0)):
            c = x.arg(0)
            while z3.is_not(c):
                c = c.arg(0)
            cnt[c.get_id()] = cnt.get(c.get_id(), 0) + 1; keep[c.get_id()] = c
        if z3.is_select(x) and z3.is_store(x.arg(0)) and isg(x) and not ite_in(x.arg(1)) and not ite_in(x.arg(0).arg(1)):
            c = x.arg(0).arg(1) == x.arg(1)
            cnt[c.get_id()] = 1000; keep[c.get_id()] = c
            STORESEL.setdefault(c.get_id(), []).append((c, x))       # c is kept alive: its id stays its own
        for c in x.children():
            walk(c)
    for e in es:
        walk(e)
    return [keep[i] for i in sorted(keep, key=lambda i: -cnt[i])]

@cached
def _nonlin(e):
    """mentions a product or quotient of variables, or a transcendental function"""
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body()); continue
        if z3.is_app(x):
            k = x.decl().kind()
            if k in (Z3_OP_MUL, Z3_OP_DIV) and sum(1 for c in x.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
                return True
            if k == Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
                return True
            if x.decl().name() in ('exp', 'log', 'sqrt', 'sin', 'cos', 'pow'):
                return True
        st += x.children()
    return False

def name_lookups(es):
    """the entry of a constant table at a symbolic position gets a name (the table stays in its definition)"""
    subs = {}; seen = set()
    def ok(x):
        st = [x]
        while st:
            y = st.pop()
            if z3.is_var(y) or z3.is_quantifier(y):
                return False
            st += y.children()
        return True
    def walk(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            walk(x.body()); return
        if z3.is_select(x) and z3.is_store(x.arg(0)) and x.sort() == Str and not z3.is_int_value(x.arg(1)):
            d = 0; y = x.arg(0)
            while z3.is_store(y):
                d += 1; y = y.arg(0)
            if d >= 3 and ok(x):
                subs[x.get_id()] = (x, FreshConst(x.sort(), 'entry')); return
        for c in x.children():
            walk(c)
    for e in es:
        walk(e)
    if not subs:
        return es
    return [z3.substitute(e, *subs.values()) for e in es] + [c == x for x, c in subs.values()]

def _indices(e):
    out = {}; seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_select(x) and x.arg(1).sort() == IntSort():
            out[x.arg(1).get_id()] = x.arg(1)
        st += x.children()
    return list(out.values())

def split_prove(asr, ng, timeout, deadline, configs, depth=0, verbose=False):
    """proof by cases on the conditions of conditional values: asr and the negated goal ng are refuted in each case"""
    if time.time() > deadline or depth > 24:
        return False
    cs = _conds([ng]) or []
    lits = []
    def atoms(c):
        if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
            for k in c.children():
                atoms(k)
        elif not (z3.is_true(c) or z3.is_false(c)):
            lits.append(c)
    for c in cs[:1]:
        atoms(c)
    if not lits:
        if verbose: print('   ' * depth + 'leaf', ng.sexpr()[:300].replace('\n', ' '))
        facts = instantiate(asr + [ng])
        logs = bool(_apps(ng, ('log',)))
        if logs:
            r, s, dt = _check(asr + [ng] + facts, 400, {'smt.mbqi': False})
            if r == unsat or log_leaf(asr, ng, verbose):
                return True
        for nm, cfg in configs:
            r, s, dt = _check(asr + [ng] + facts, timeout * 1000, cfg)
            if verbose: print('   ' * depth, nm, r, round(dt, 2))
            if r == unsat:
                return True
        # equate an index of the goal with another one, if that is what the case says
        ix = _indices(ng)
        for k in [k for k in ix if z3.is_const(k) and k.decl().name().startswith('sk_')]:
            for t in ix:
                if t.get_id() == k.get_id() or occurs(k, t, []):
                    continue
                b = [a for a in asr if not _nonlin(a)] + [k != t]
                r, s, dt = _check(b + instantiate(b), 1500, {'smt.mbqi': False})
                if verbose: print('   ' * depth, k, '==', t, r, round(dt, 2))
                if r == unsat:
                    sub = [(k, t)]
                    return split_prove([z3.simplify(z3.substitute(a, *sub)) for a in asr], z3.simplify(z3.substitute(ng, *sub)), timeout, deadline, configs, depth + 1, verbose)
        return False
    c = lits[0]
    for v in (True, False):
        sub = [(c, BoolVal(v))]
        if not v:
            for _c, x in STORESEL.get(c.get_id(), []):
                sub.append((x, Select(x.arg(0).arg(0), x.arg(1))))
        if v and z3.is_eq(c):
            for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if z3.is_const(x) and x.decl().kind() == Z3_OP_UNINTERPRETED and not occurs(x, y, []) and x.get_id() not in _litname:
                    sub.append((x, y)); break
        b = z3.simplify(z3.substitute(And(*asr), *sub))
        if is_false(b):
            continue
        a2 = b.children() if z3.is_and(b) else [b]
        a2.append(c if v else Not(c))
        g2 = z3.simplify(z3.substitute(ng, *sub))
        if is_false(g2):
            continue
        r, s, dt = _check([x for x in a2 + [g2] if not hasq(x) and not _nonlin(x)], 100, {})
        if r != unsat and depth < 3:
            r, s, dt = _check([x for x in a2 + [g2] if not hasq(x)], 150, {})
        if verbose: print('   ' * depth, v, c.sexpr()[:150].replace('\n', ' '), r)
        if r == unsat:
            continue
        if not split_prove(a2, g2, timeout, deadline, configs, depth + 1, verbose):
            return False
    return True

HELD = None         # shared counter of the tokens held below one worker process
def held(n):
    if HELD is not None:
        with HELD.get_lock():
            HELD.value += n
TOKENS = None       # limits how many provers run at once over all worker processes
NPROC = int(os.environ.get('VT_PROCS', '8'))
def _pdeathsig():
    try:
        import ctypes
        ctypes.CDLL('libc.so.6').prctl(1, 9)
    except Exception:
        pass

def par(fn, items, stop=None):
    """[fn(x) for x in items], each in a process of its own; fn returns something picklable.
    stop(result): the remaining items need not be looked at (their result is None)"""
    import pickle, select, signal
    items = list(items)
    if len(items) < 2 or NPROC < 2:
        out = []
        for x in items:
            out.append(fn(x))
            if stop and stop(out[-1]):
                return out + [None] * (len(items) - len(out))
        return out
    # this process waits for its children: one of them runs in its place, each further one takes a token
    res = [None] * len(items); live = {}; k = 0; halt = False
    while live or (k < len(items) and not halt):
        while k < len(items) and len(live) < NPROC and not halt:
            got = False
            if TOKENS is not None and any(not l[3] for l in live.values()):
                got = TOKENS.acquire(False)
                if not got:
                    break
                held(1)
            live_add(live, k, items[k], fn, got); k += 1
        rd, _, _ = select.select(list(live), [], [], 0.5 if k < len(items) else 5.0)
        for r in rd:
            b = os.read(r, 1 << 16)
            i, pid, buf, got = live[r]
            if b:
                buf.append(b); continue
            reap(live, r)
            if buf:
                v, nq, tm = pickle.loads(b''.join(buf))
                res[i] = v; STATS['queries'] += nq; STATS['time'] += tm
                if stop and stop(v):
                    halt = True
        if halt:
            for r in list(live):
                try:
                    os.kill(live[r][1], signal.SIGKILL)
                except OSError:
                    pass
                reap(live, r)
    return res

def live_add(live, k, item, fn, got):
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            _pdeathsig(); os.close(r)
            q0 = dict(STATS)
            v = fn(item)
            d = pickle.dumps((v, STATS['queries'] - q0['queries'], STATS['time'] - q0['time']))
            with os.fdopen(w, 'wb') as f:
                f.write(d)
            rc = 0
        finally:
            os._exit(rc)
    os.close(w); live[r] = (k, pid, [], got)

def reap(live, r):
    i, pid, buf, got = live.pop(r)
    os.close(r); os.waitpid(pid, 0)
    if got:
        TOKENS.release(); held(-1)

def quick_unsat(pc, timeout=0.3):
    facts = list(pc) + instantiate(list(pc), fuel=1)
    ground = [f for f in facts if not hasq(f)]
    r, s, dt = _check(ground, timeout * 1000, {})
    if r == unsat or len(ground) == len(facts):
        return r == unsat
    # the solver has crashed on quantified facts about nested maps: keep that away from this process
    live = {}
    live_add(live, 0, None, lambda _: _check(facts, timeout * 1000, {'smt.mbqi': False})[0] == unsat, False)
    out = b''
    fd = list(live)[0]
    while True:
        b = os.read(fd, 1 << 16)
        if not b:
            break
        out += b
    reap(live, fd)
    if not out:
        return False
    import pickle
    v, nq, tm = pickle.loads(out)
    STATS['queries'] += nq; STATS['time'] += tm
    return v

def cvc5_confirm(obls, tlimit=10):
    """second opinion: the same obligations, discharged independently by cvc5"""
    ok = tried = 0
    exe = '/usr/local/bin/cvc5'
    import shutil
    exe = shutil.which('cvc5')
    if not exe:
        return (0, 0)
    for o in obls:
        if o.result is None or o.result.status != 'valid' or o.result.backend in ('syntactic', 'trivial') or not o.pc:
            continue
        tried += 1
        good = True
        for hyps, g in skolemize(o.goal):
            if is_true(g):
                continue
            base = name_ites(list(o.pc) + hyps + [mknot(g)])
            s = Solver()
            for a in base + instantiate(base):
                s.add(a)
            txt = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt)
            try:
                r = subprocess.run([exe, '--tlimit=%d' % (tlimit * 1000), f.name], capture_output=True, text=True, timeout=tlimit + 5)
                if r.stdout.strip().split('\n')[-1] != 'unsat':
                    good = False
            except subprocess.TimeoutExpired:
                good = False
            os.unlink(f.name)
            if not good:
                break
        ok += good
    return (ok, tried)
