"""Contracts (sidecar specifications on the real functions) and the driver that
generates and discharges one function's obligations."""
import z3, time, traceback
from z3 import *
from values import *
import values as V
import solver as S
import spec as SP
from spec import View, view
import exec as X
from exec import Executor, State, Ref, Throw, Obl, Outcome

class Ctx:
    """what a contract sees: .this/.old (object after/before), .arg(name or index), .old_arg, .result"""
    def __init__(self):
        self._this = None; self._old = None; self._args = []; self._old_args = []; self.result = None; self.names = []
        self.ghost = {}; self.nulls = {}; self.proving = False
    @property
    def this(self):
        return self._this
    @property
    def old(self):
        return self._old
    def arg(self, i):
        return self._args[i]
    def old_arg(self, i):
        return self._old_args[i]

class Contract:
    REG = []
    def __init__(self, qual, sig=None, requires=None, ensures=None, throws=None, modifies=(), exc_modifies=None, loops=(),
                 prop=(), out_args=(), result_ref=None, inline=False, trusted=None, pure=None, force_inline=(), opts=None,
                 axioms=None, on_throw=None, name=None, may_throw=False, assume_post=None, lemmas=None, static_inv=None,
                 split=None, cases=None, cuts=(), outs=None):
        self.outs = outs or {}          # values written to reference arguments: {index: c -> term}
        self.qual = qual; self.sig = sig
        self.cuts = list(cuts)          # facts kept after each unrolled iteration of a loop
        self.cases = cases              # [(label, {field: value})]: verified once per case (see case_holds); the precondition must imply one of them
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.throws = throws            # None: nothing is said; else c -> [(label, exc, cond)]
        self.modifies = tuple(modifies)
        self.exc_modifies = tuple(modifies) if exc_modifies is None else tuple(exc_modifies)
        self.loops = list(loops)
        self.prop = tuple(prop)
        self.out_args = tuple(out_args)
        self.result_ref = result_ref
        self.inline = inline            # contract is proved, but callers inline the body
        self.trusted = trusted          # reason: contract assumed, body not verified
        self.force_inline_q = tuple(force_inline)
        self.force_inline = set()
        self.opts = opts or {}
        self.axioms = axioms or (lambda c: [])
        self.on_throw = on_throw
        self.name = name or (qual + ('' if sig is None else ' ' + str(sig)))
        self.may_throw = may_throw
        self.lemmas = lemmas or (lambda c: [])
        self.static_inv = static_inv
        self.pure = pure                # deterministic function of the object and the arguments
        self.node = None
        Contract.REG.append(self)

    def bind(self, prog):
        l = prog.find(self.qual, self.sig)
        if not l:
            raise Unsupported('function under contract not found: %s %s' % (self.qual, self.sig or ''))
        if len(l) > 1:
            raise Unsupported('contract ambiguous: %s matches %d overloads: %s' % (self.qual, len(l), [x['type']['qualType'] for x in l]))
        self.node = l[0]
        return self.node['mangledName']

    # -- pure functions: the result as a function of the inputs
    def _rt(self):
        return parse_type(X.ret_type(self.node['type']['qualType']))
    def puref(self, this, *args):
        ins = [pack(x.v) if isinstance(x, View) else (pack(x) if isinstance(x, Val) else x) for x in ([this] if this is not None else []) + list(args)]
        rt = self._rt()
        f = Function('fn ' + self.name, *([i.sort() for i in ins] + [sort_of(rt)]))
        return view(wrap(f(*ins), rt))
    def purethrows(self, this, *args):
        ins = [pack(x.v) if isinstance(x, View) else (pack(x) if isinstance(x, Val) else x) for x in ([this] if this is not None else []) + list(args)]
        f = Function('throws ' + self.name, *([i.sort() for i in ins] + [BoolSort()]))
        return f(*ins)

    # -- use at call sites
    def apply(self, ex, thisref, vals, n, node):
        st = ex.cur
        c = Ctx()
        pre_this = ex.load(st, thisref) if thisref is not None else None
        c._this = c._old = view(pre_this) if thisref is not None else None
        c._args = c._old_args = [view(ex.load(st, v)) for v in vals]
        short = self.qual.split('::', 1)[-1]
        for nm, g in self.requires(c):
            ex.oblige(st, 'call %s: requires %s' % (short, nm), 'call-precondition', g, n)
        for (lb, exc, cond) in (self.throws(c) if self.throws else []):
            cond = X.sb(cond)
            if is_false(cond):
                continue
            t = st.fork()
            t.assume(cond, 'b')
            self._havoc_this(ex, t, thisref, self.exc_modifies)
            ex.throws.append(Throw(t, exc, ex.loc(n), short))
            if is_true(cond):
                ex.cur = None
                return X.Opaque('dead')
            st.assume(mknot(cond), 'b')
        if self.may_throw:
            b = self.purethrows(c._this, *c._args) if self.pure else z3.Const('throws!%d' % ex._bump(), BoolSort())
            t = st.fork(); t.assume(b, 'b')
            self._havoc_this(ex, t, thisref, self.exc_modifies)
            ex.throws.append(Throw(t, 'std::exception', ex.loc(n), short))
            st.assume(mknot(b), 'b')
        self._havoc_this(ex, st, thisref, self.modifies)
        for i in self.out_args:
            t = None
            old = ex.load(st, vals[i])
            ex.store(st, vals[i], self.outs[i](c) if i in self.outs else X.havoc_path(old, (), st, 'out%d' % i))
        c2 = Ctx()
        c2._old = c._old; c2._old_args = c._old_args
        c2._this = view(ex.load(st, thisref)) if thisref is not None else None
        c2._args = [view(ex.load(st, v)) for v in vals]
        rt = X.ret_type(node['type']['qualType'])
        if self.result_ref is not None:
            r = self.result_ref(ex, st, thisref, vals, c)
            c2.result = view(ex.load(st, r))
        elif rt == 'void':
            r = X.Opaque('void')
        elif node['kind'] == 'CXXConstructorDecl':
            r = X.Opaque('void')
        else:
            if self.pure:
                ex.trusted.add('%s is a deterministic function of its object and arguments' % self.name)
                r = self.puref(c._this, *c._args)
                r = r.v if isinstance(r, View) else r
            else:
                r = fresh(parse_type(rt), 'res_' + short.split('::')[-1])
            c2.result = view(r)
            for g in wf(r):
                st.assume(g)
        for nm, g in self.ensures(c2):
            st.assume(g)
        for g in self.axioms(c2):
            st.assume(g)
        ex.cur = st
        return r

    def _havoc_this(self, ex, st, thisref, fields):
        for f in fields:
            r = thisref
            for p in f.split('.'):
                r = r.sub(('f', p))
            ex.store(st, r, X.havoc_path(ex.load(st, r), (), st, 'mod_' + f))

class Done:
    """an obligation decided in another process"""
    def __init__(self, d):
        self.name = d['name']; self.kind = d['kind']; self.loc = d['loc']; self.goal = d.get('out', ''); self.pc = []; self.text = d
        self.result = S.Result(d['status'], d['backend'], d['time'], d.get('model'), None, d['reason'])

class FnReport:
    def __init__(self, name):
        self.name = name; self.obls = []; self.error = None; self.loops = []; self.trusted = set(); self.inlined = set(); self.called = set()
        self.dropped = set(); self.wall = 0.0; self.vacuous = False; self.paths = 0; self.line = ''; self.vac_checked = 0

    def as_dict(self):
        ob = []
        for o in self.obls:
            r = o.result
            if isinstance(o, Done):
                ob.append(o.text); continue
            d = dict(name=o.name, kind=o.kind, loc=o.loc, status=r.status, backend=r.backend, time=r.time, reason=r.reason)
            if r.status != 'valid':
                d['out'] = 'goal: %s\n(%d hypotheses)\n' % (str(o.goal)[:3000], len(o.pc)) + ';'.join(str(x)[:300] for x in o.pc[-12:])
                if r.model is not None:
                    d['model'] = r.model
            ob.append(d)
        return dict(name=self.name, error=self.error, obls=ob, loops=self.loops, trusted=sorted(self.trusted), inlined=sorted(self.inlined),
                    called=sorted(self.called), dropped=sorted(self.dropped), paths=self.paths, wall=self.wall, line=self.line, tb=getattr(self, 'tb', ''))

def verify(prog, contracts, con, timeout=10.0, opts=None, configs=None, thorough=False):
    """generate and discharge every obligation of one function"""
    t0 = time.time()
    rep = FnReport(con.name)
    try:
        if con.cases is None:
            _verify(prog, contracts, con, rep, timeout, opts or {}, configs, thorough)
        else:
            def one(case):
                r = FnReport(con.name)
                try:
                    _verify(prog, contracts, con, r, timeout, opts or {}, configs, thorough, case)
                except Unsupported as e:
                    r.error = 'unsupported: %s' % e; r.tb = traceback.format_exc()
                except Exception as e:
                    r.error = 'internal: %s: %s' % (type(e).__name__, e); r.tb = traceback.format_exc()
                return r.as_dict()
            for (lb, _), d in zip(con.cases, S.par(one, con.cases)):
                if d is None:
                    raise Unsupported('case %s: prover died' % lb)
                if d['error']:
                    rep.error = rep.error or 'case %s: %s' % (lb, d['error']); rep.tb = d.get('tb', '')
                for o in d['obls']:
                    rep.obls.append(Done(o))
                rep.line = d['line']; rep.loops += d['loops']; rep.trusted |= set(d['trusted']); rep.inlined |= set(d['inlined']); rep.called |= set(d['called']); rep.dropped |= set(d['dropped']); rep.paths += d['paths']
    except Unsupported as e:
        rep.error = 'unsupported: %s' % e
        rep.tb = traceback.format_exc()
    except z3.Z3Exception as e:
        rep.error = 'z3: %s' % e
        rep.tb = traceback.format_exc()
    except RecursionError as e:
        rep.error = 'recursion limit'
    except Exception as e:
        rep.error = 'internal: %s: %s' % (type(e).__name__, e)
        rep.tb = traceback.format_exc()
    rep.wall = time.time() - t0
    return rep

def _verify(prog, contracts, con, rep, timeout, opts, configs, thorough, case=None):
    node = con.node
    o = dict(con.opts); o.update(opts)
    S.SPLIT = o.get('split', 0)
    V.set_opaque(o.get('opaque', ()))
    ex = Executor(prog, contracts, con, o)
    con.force_inline = set()
    for q in con.force_inline_q:
        for m in prog.by_qual.get(q, []):
            con.force_inline.add(m)
    con.force_inline.add(node['mangledName'])
    rep.line = '%s:%s' % (str(node.get('_file', '')).split('/')[-1], node.get('_line'))
    st = State()
    for f in X.PI_FACTS:
        st.assume(f)
    cls = node['_cls']
    is_static = node.get('storageClass') == 'static'
    isctor = node['kind'] == 'CXXConstructorDecl'
    thisref = None
    c0 = Ctx()
    if cls in RECORDS and not is_static and node['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl'):
        st.env['this'] = fresh(('struct', cls), 'this')
        thisref = Ref('this')
        c0._this = c0._old = view(st.env['this'])
        for g in wf(st.env['this']):
            st.assume(g)
    ps = [c for c in node.get('inner', []) if c['kind'] == 'ParmVarDecl']
    vals = []
    for i, p in enumerate(ps):
        t = parse_type(p['type'].get('desugaredQualType', p['type']['qualType']))
        key = 'arg%d_%s' % (i, p.get('name', ''))
        if t[0] == 'ptr':
            st.env[key + '_pt'] = fresh(('vec', t[1]), 'ptr_' + p.get('name', ''))
            nul = z3.Const('null_' + p.get('name', 'p%d' % i), BoolSort()) if i in o.get('nullable', ()) else None
            st.env[key] = X.CArr(Ref(key + '_pt'), IntVal(0), nul)
            c0.nulls[i] = st.env[key].null
            st.assume(unfold(st.env[key + '_pt']).n >= 0)
        else:
            st.env[key] = fresh(t, p.get('name', 'p%d' % i))
            for g in wf(st.env[key]):
                st.assume(g)
            if t[0] == 'int' and not t[1]:
                st.assume(st.env[key] >= 0)
        vals.append(Ref(key))
    argview = lambda s, v: view(s.env[v.root + '_pt']) if v.root + '_pt' in s.env else view(s.env[v.root])
    c0._args = c0._old_args = [argview(st, v) for v in vals]
    reqs = con.requires(c0)
    exhaustive = []
    if case is not None:
        if case is con.cases[0]:
            exhaustive = [Obl('the cases are exhaustive', 'precondition', st.facts() + [g for _, g in reqs],
                              mkor(*[mkand(*[case_holds(c0, f, v) for f, v in d.items()]) for _, d in con.cases]), rep.line, con.qual.split('::', 1)[-1])]
        th = unfold(st.env['this'])
        for f, v in case[1].items():
            if f[0] == '@':
                st.env[vals[int(f[1:])].root] = v
            elif f[0] != '?':
                th = _setf(th, f, v)
        st.env['this'] = th
        c0._this = c0._old = view(th)
        c0._args = c0._old_args = [argview(st, v) for v in vals]
        for f, v in case[1].items():
            if f[0] == '?':
                st.assume(case_holds(c0, f, v))
        reqs = con.requires(c0)
    for nm, g in reqs:
        st.assume(g)
    for g in con.axioms(c0):
        st.assume(g)
    ex.topctx = c0
    pre = st.fork()
    # vacuity: the precondition must be satisfiable (not refutable)
    if S.quick_unsat(pre.facts(), 2.0):
        rep.vacuous = True
        raise Unsupported('precondition of %s is contradictory' % con.name)
    # run the body
    ex.cur = st
    ex.throws = []
    ex.frames.append(dict(id=0, vars={}, refs={}, this=None, tu=node['_tu'], name='<entry>', retref=False, rett=VOID))
    f = dict(id=1, vars={}, refs={}, this=thisref, tu=node['_tu'], name=prog.qual[node['mangledName']], m=node['mangledName'])
    rt = X.ret_type(node['type']['qualType'])
    f['retref'] = rt.strip().endswith('&'); f['rett'] = parse_type(rt)
    for p, v in zip(ps, vals):
        pt = p['type'].get('desugaredQualType', p['type']['qualType'])
        if pt.strip().endswith('&'):
            f['refs'][p['id']] = v
        else:
            f['vars'][p['id']] = v.root
    ex.frames.append(f)
    body = [c for c in node['inner'] if c['kind'] == 'CompoundStmt'][0]
    out = Outcome()
    if isctor:
        st = ex.ctor_inits(st, node, thisref)
    ex.cur = st
    exits = []
    if st is None:
        pass
    elif o.get('paths') == 'all':
        def run(i):
            out.ret = []
            ex.cur = s0 = st.fork()
            end = ex.stmt(s0, body, out)
            exits.extend(([(end, body)] if end is not None else []) + out.ret)
        ex.paths(run)
    else:
        end = ex.stmt(st, body, out)
        exits = ([(end, body)] if end is not None else []) + out.ret
    obls = ex.obls + exhaustive
    rep.paths += len(exits) + len(ex.throws)
    fname = con.qual.split('::', 1)[-1]
    # normal exits
    for s, nd in exits:
        c = Ctx()
        c._old = c0._old; c._old_args = c0._old_args
        c._this = view(s.env['this']) if thisref is not None else None
        c._args = [argview(s, v) for v in vals]
        c.ghost = dict(sorts=[s.env['$sorts'].g]) if isinstance(s.env.get('$sorts'), X.GhostSort) else {}; c.nulls = c0.nulls; c.proving = True
        r = s.env.get('$ret1')
        if r is not None and not (isinstance(r, X.Opaque) and r.tag == 'void'):
            if isinstance(r, Ref) and r.root not in ('this',) and not r.root.startswith(('arg', 'static', 'global')):
                obls.append(Obl('returned reference outlives the call', 'safety', s.facts(), FALSE, ex.loc(nd), fname))
            c.result = view(ex.rv(s, r))
            if isinstance(r, Ref):
                c.result_ref = r
        elif rt != 'void' and not isctor:
            raise Unsupported('control reaches the end of %s without a value' % fname)
        s2 = s
        for g in con.lemmas(c):
            s2.assume(g)
        facts = s2.facts()
        statics(obls, ex, con, s, facts, ex.loc(nd), fname)
        if con.throws is not None and not con.may_throw:
            for (lb, exc, cond) in con.throws(c0):
                obls.append(Obl('must reject: ' + lb, 'exception', facts, mknot(cond), ex.loc(nd), fname))
        for nm, g in con.ensures(c):
            obls.append(Obl('ensures ' + nm, 'postcondition', facts, g, ex.loc(nd), fname))
        if thisref is not None and not isctor:
            frame(obls, pre.env['this'], s.env['this'], con.modifies, facts, ex.loc(nd), fname, 'frame')
        for i, v in enumerate(vals):
            if i not in con.out_args and ps[i]['type']['qualType'].strip().endswith('&') and v.root in pre.env:
                d = {}
                X.diff(pre.env[v.root], s.env[v.root], (), d)
                if d:
                    obls.append(Obl('frame argument %d unchanged' % i, 'frame', facts, SP.val_same(pre.env[v.root], s.env[v.root]), ex.loc(nd), fname))
    # exceptional exits
    for t in ex.throws:
        s = t.st
        c = Ctx(); c._old = c0._old; c._old_args = c0._old_args
        c._this = view(s.env['this']) if thisref is not None else None
        c._args = [argview(s, v) for v in vals]
        facts = s.facts()
        statics(obls, ex, con, s, facts, t.loc, fname)
        if con.throws is not None and not con.may_throw:
            conds = [cond for (lb, exc, cond) in con.throws(c0) if exc is None or X.exc_matches(t.exc, exc)]
            obls.append(Obl('throws %s only when allowed' % t.exc, 'exception', facts, mkor(*conds), t.loc, fname))
        if thisref is not None and not isctor:
            frame(obls, pre.env['this'], s.env['this'], con.exc_modifies, facts, t.loc, fname, 'frame on exception')
        if con.on_throw is not None:
            for nm, g in con.on_throw(c):
                obls.append(Obl('on exception: ' + nm, 'postcondition', facts, g, t.loc, fname))
    rep.loops += ex.loops; rep.trusted |= ex.trusted; rep.inlined |= ex.inlined; rep.called |= ex.called; rep.dropped |= ex.dropped
    # reachability: at least one normal exit must not be refutable
    if exits and not any(not S.quick_unsat(s.facts(), 1.0) for s, _ in exits):
        rep.vacuous = True
        raise Unsupported('no normal exit of %s is reachable' % con.name)
    todo = []
    for ob in obls:
        if ob.result is None:
            if is_true(ob.goal):
                ob.result = S.Result('valid', 'syntactic', 0.0)
            else:
                todo.append(ob)
    def one(ob):
        r = S.prove(ob.pc, ob.goal, timeout, configs, want_model=True)
        return (r.status, r.backend, r.time, r.reason, modeltext(r.model))
    for ob, v in zip(todo, S.par(one, todo)):
        ob.result = S.Result(v[0], v[1], v[2], v[4], None, v[3]) if v is not None else S.Result('unknown', '', 0.0, None, None, 'prover died')
    if case is not None:
        for ob in obls:
            ob.name = '[%s] %s' % (case[0], ob.name)
    rep.obls += obls

def _setf(sv, f, v):
    d = dict(sv.f); d[f] = v
    return StructVal(sv.t, d)

def modeltext(m):
    if m is None:
        return None
    try:
        return '\n'.join('    %s = %s' % (x, str(m[x])[:200]) for x in list(m.decls()) if x.arity() == 0)[:3000]
    except Exception:
        return None

def statics(obls, ex, con, s, facts, loc, fname):
    if con.static_inv is not None:
        for key, (v, t, d) in ex.statics.items():
            if key in s.env:
                for lb, g in con.static_inv(view(s.env[key]), t):
                    obls.append(Obl('static kept: ' + lb, 'invariant', facts, g, loc, fname))

def case_holds(c, f, v):
    """a case fixes a field ('name'), an argument ('@0') or states a condition ('?': c -> condition)"""
    return v(c) if f[0] == '?' else c.arg(int(f[1:])) == v if f[0] == '@' else getattr(c.this, f) == v

def frame(obls, pre, post, modifies, facts, loc, fname, label):
    d = {}
    X.diff(pre, post, (), d)
    bad = set()
    for p in d:
        q = '.'.join(str(x) for x in p if not str(x).startswith('.'))
        if any(q == m or q.startswith(m + '.') for m in modifies):
            continue
        bad.add(tuple(x for x in p if not str(x).startswith('.')))
    for p in sorted(bad):
        a, b = pre, post
        for x in p:
            a = unfold(a).f[x]; b = unfold(b).f[x]
        obls.append(Obl('%s: %s unchanged' % (label, '.'.join(p)), 'frame', facts, SP.val_same(a, b), loc, fname))

def wf(v, depth=0):
    """type invariants of symbolic inputs: lengths are non-negative"""
    out = []
    if isinstance(v, Packed) and V.hidden(v):
        return out
    v = unfold(v) if isinstance(v, Packed) else v
    if isinstance(v, VecVal):
        out.append(v.n >= 0)
        if v.et[0] == 'vec':
            i = z3.Const('wfi', IntSort())
            s = sort_of(v.et)
            out.append(ForAll([i], s.accessor(0, 0)(Select(v.a, i)) >= 0, patterns=[Select(v.a, i)]))
    elif isinstance(v, StructVal):
        for f in v.f:
            out += wf(v.f[f], depth + 1)
    elif isinstance(v, MapVal):
        if v.vt[0] == 'vec':
            k = z3.Const('wfk', v.dom.sort().domain())
            s = sort_of(v.vt)
            out.append(ForAll([k], s.accessor(0, 0)(Select(v.val, k)) >= 0, patterns=[Select(v.val, k)]))
    return out
