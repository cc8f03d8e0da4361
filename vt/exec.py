"""Forward symbolic execution of the clang AST of the real functions
(strongest postcondition with state merging at joins, loops cut by
invariants, callees replaced by their contracts or, when they have none,
inlined)."""
import z3, re, itertools
from z3 import *
from values import *
import values as V
import solver as S
from fractions import Fraction

MAXUNROLL = 130
HOUDINI_TIMEOUT = 1.5
HOOK = None
import os
DEBUG = bool(os.environ.get('VT_DEBUG'))

class ReturnSig(Exception):
    pass

class Ptr(Val):
    __slots__ = ('ref',)
    def __init__(self, ref):
        self.ref = ref

class CArr(Val):
    """decayed C array / pointer into an array: element lvalue base + offset"""
    __slots__ = ('ref', 'off', 'null')
    def __init__(self, ref, off, null=None):
        self.ref = ref; self.off = off; self.null = null if null is not None else z3.BoolVal(False)

class GhostSort(Val):
    """ghost: the permutation of the last sort on this path"""
    __slots__ = ('g',)
    def __init__(self, g):
        self.g = g

class State:
    __slots__ = ('pc', 'env', 'types')
    def __init__(self):
        self.pc = []      # list of (kind, expr) kind in 'b' (branch) 'f' (fact)
        self.env = {}
        self.types = {}
    def fork(self):
        s = State(); s.pc = list(self.pc); s.env = dict(self.env); s.types = self.types
        return s
    def assume(self, e, kind='f'):
        if not is_true(e):
            self.pc.append((kind, e))
    def facts(self):
        return [e for _, e in self.pc]

class Outcome:
    def __init__(self):
        self.brk = []; self.cont = []; self.ret = []

class Oracle:
    """chooses one side at every branching point; running the code again with next() covers every path"""
    def __init__(self, ex):
        self.ex = ex; self.dec = []; self.pos = 0; self.flip = -1
    def start(self, ex, out=None):
        self.pos = 0; self.mo = len(ex.obls); self.mt = len(ex.throws); self.ml = len(ex.loops)
        ex.oracle = self
    def passed(self):
        # what was recorded up to the point where this path leaves the previous one is known already
        if self.pos - 1 == self.flip:
            ex = self.ex
            del ex.obls[self.mo:]; del ex.throws[self.mt:]; del ex.loops[self.ml:]
    def choose(self, options):
        """options(): the feasible choices here, looked at on the first visit only"""
        i = self.pos; self.pos += 1
        if i < len(self.dec):
            r = self.dec[i][0]
        else:
            o = options()
            self.dec.append([o[0], o[1:]]); r = o[0]
        self.passed()
        return r
    def next(self):
        while self.dec and not self.dec[-1][1]:
            self.dec.pop()
        if not self.dec:
            return False
        d = self.dec[-1]
        d[0], d[1] = d[1][0], d[1][1:]
        self.flip = len(self.dec) - 1
        return True

class Obl:
    __slots__ = ('name', 'kind', 'pc', 'goal', 'loc', 'result', 'fn')
    def __init__(self, name, kind, pc, goal, loc, fn):
        self.name = name; self.kind = kind; self.pc = pc; self.goal = goal; self.loc = loc; self.result = None; self.fn = fn

class Throw:
    __slots__ = ('st', 'exc', 'loc', 'where')
    def __init__(self, st, exc, loc, where=''):
        self.st = st; self.exc = exc; self.loc = loc; self.where = where

def simp(e):
    return z3.simplify(e)

def sb(e):
    """boolean with light simplification (only used to decide constants)"""
    if is_true(e) or is_false(e):
        return e
    r = z3.simplify(e)
    if is_true(r) or is_false(r):
        return r
    return e

def _lit_eq(a, b):
    la, lb = litval(a), litval(b)
    if la is not None and lb is not None:
        return BoolVal(la == lb)
    if a.eq(b):
        return TRUE
    return a == b

class Executor:
    def __init__(self, prog, contracts, top=None, opts=None):
        self.prog = prog
        self.contracts = contracts      # mangled -> Contract
        self.top = top                  # contract being verified
        self.opts = opts or {}
        self.uninit_ids = {}
        self.cand_hist = {}
        self.oracle = None
        self.obls = []
        self.throws = []
        self.frames = []
        self.nframe = 0
        self.suppress = 0
        self.probe = 0
        self.dropped = set()
        self.inlined = set(); self.no_bounded = {}
        self.called = set()
        self.loops = []
        self.trusted = set()
        self.statics = {}
        self.ghost = {}
        self.nobl = 0

    # ------------------------------------------------------------ utils
    def loc(self, n):
        return '%s:%s' % (str(n.get('_file', '?')).split('/')[-1], n.get('_line', '?'))

    def unsup(self, n, why):
        raise Unsupported('%s at %s (%s)' % (why, self.loc(n) if n else '?', n.get('kind') if n else ''))

    def oblige(self, st, name, kind, goal, node):
        g = sb(goal)
        if is_true(g):
            self.nobl += 1
            if not self.suppress:
                o = Obl(name, kind, [], TRUE, self.loc(node) if node else '', self.cur_fn()); self.obls.append(o)
            return
        if not self.suppress:
            self.obls.append(Obl(name, kind, st.facts(), goal, self.loc(node) if node else '', self.cur_fn()))
        # after checking, the condition may be assumed on this path
        st.assume(goal)

    def cur_fn(self):
        return self.frames[-1]['name'] if self.frames else '?'

    def etype(self, n):
        t = n['type']
        return parse_type(t.get('desugaredQualType', t['qualType']))

    # ------------------------------------------------------------ store
    def load(self, st, ref):
        if ref.root not in st.env:
            raise Unsupported('read of unknown variable %r' % (ref.root,))
        v = st.env[ref.root]
        for a in ref.path:
            v = self.get(v, a)
        if isinstance(v, Undef):
            raise Unsupported('use of unmodelled value: ' + v.why)
        return v

    def get(self, v, a):
        v = unfold(v) if isinstance(v, Packed) else v
        if a[0] == 'f':
            if isinstance(v, StructVal):
                return v.f[a[1]]
            raise Unsupported('field %s of %s' % (a[1], type(v).__name__))
        if a[0] == 'i':
            if isinstance(v, VecVal):
                return wrap(sel(v.a, a[1]), v.et)
            raise Unsupported('index of %s' % type(v).__name__)
        if a[0] == 'k':
            if isinstance(v, MapVal):
                return wrap(sel(v.val, a[1]), v.vt)
            raise Unsupported('key of %s' % type(v).__name__)
        raise Unsupported('access')

    def put(self, v, path, new):
        if not path:
            return new
        v = unfold(v) if isinstance(v, Packed) else v
        a = path[0]
        if a[0] == 'f':
            f = dict(v.f); f[a[1]] = self.put(v.f[a[1]], path[1:], new)
            return StructVal(v.t, f)
        if a[0] == 'i':
            if not isinstance(v, VecVal):
                raise Unsupported('indexed write to %s' % type(v).__name__)
            e = self.put(wrap(sel(v.a, a[1]), v.et), path[1:], new) if len(path) > 1 else new
            return VecVal(v.n, Store(v.a, a[1], pack(e)), v.et)
        if a[0] == 'k':
            e = self.put(wrap(sel(v.val, a[1]), v.vt), path[1:], new) if len(path) > 1 else new
            return MapVal(v.dom, Store(v.val, a[1], pack(e)), v.kt, v.vt)
        raise Unsupported('write')

    def store(self, st, ref, val):
        if isinstance(val, Undef):
            raise Unsupported('store of unmodelled value: ' + val.why)
        if not ref.path:
            st.env[ref.root] = val
            return
        st.env[ref.root] = self.put(st.env[ref.root], ref.path, val)

    def rv(self, st, v):
        n = 0
        while isinstance(v, Ref):
            v = self.load(st, v); n += 1
        return v

    def newvar(self, st, name, val, t=None):
        self.nframe += 1
        r = '%s#%d' % (name, self.nframe)
        st.env[r] = val
        return Ref(r)

    def vkey(self, declid):
        for f in reversed(self.frames):
            pass
        f = self.frames[-1]
        return f['vars'].get(declid)

    # ------------------------------------------------------------ merging
    def merge(self, states, conds, base):
        """states reached by mutually exclusive conditions; base = number of common pc entries"""
        live = [(s, c) for s, c in zip(states, conds) if s is not None]
        if not live:
            return None
        if len(live) == 1:
            return live[0][0]
        out = State()
        out.types = live[0][0].types
        out.pc = list(live[0][0].pc[:base])
        sels = []
        for s, c in live:
            if c is None:
                c = mkand(*[e for k, e in s.pc[base:] if k == 'b'])
            sels.append(c)
        allc = sb(mkor(*sels)) if len(sels) != len(states) or any(c is None for c in conds) else TRUE
        if len(live) == 2 and (sels[0].eq(mknot(sels[1])) or mknot(sels[0]).eq(sels[1])):
            allc = TRUE
        if not is_true(allc):
            out.pc.append(('b', allc))
        # facts occurring in every branch verbatim stay unguarded
        seenf = set()
        for (s, _), c in zip(live, sels):
            for k, e in s.pc[base:]:
                if k == 'b' and c is not None:
                    # branch conditions inside are implied by selector unless an explicit cond was given
                    g = sb(mkor(mknot(c), e)) if not e.eq(c) else TRUE
                    if not is_true(g) and not _implied(c, e):
                        out.pc.append(('f', g))
                    continue
                if k == 'f':
                    key = (c.get_id(), e.get_id())
                    if key in seenf:
                        continue
                    seenf.add(key)
                    out.pc.append(('f', mkor(mknot(c), e)))
        keys = set(live[0][0].env)
        for s, _ in live[1:]:
            keys &= set(s.env)
        for k in keys:
            v = live[-1][0].env[k]
            for (s, _), c in zip(reversed(live[:-1]), reversed(sels[:-1])):
                v = ite_val(c, s.env[k], v)
            out.env[k] = v
        return out

    def branch(self, st, c, then, els, node):
        """run then/els on forked states; returns merged state or None"""
        c = sb(c)
        if is_true(c):
            return then(st)
        if is_false(c):
            return els(st)
        known = {e.get_id() for e in st.facts()}
        if c.get_id() in known:
            return then(st)
        nc = mknot(c)
        if nc.get_id() in known:
            return els(st)
        base = len(st.pc)
        if self.oracle is not None:
            def options():
                if S.quick_unsat(st.facts() + [c], 0.15):
                    return [False]
                if S.quick_unsat(st.facts() + [nc], 0.15):
                    return [True]
                return [True, False]
            if self.oracle.choose(options):
                st.assume(c, 'b'); return then(st)
            st.assume(nc, 'b'); return els(st)
        if self.opts.get('prune', True):
            if S.quick_unsat(st.facts() + [c], 0.15):
                st.assume(nc); return els(st)
            if S.quick_unsat(st.facts() + [nc], 0.15):
                st.assume(c); return then(st)
        a = st.fork(); a.assume(c, 'b')
        b = st.fork(); b.assume(nc, 'b')
        ra = then(a)
        rb = els(b)
        if ra is None:
            return rb
        if rb is None:
            return ra
        return self.merge([ra, rb], [c, nc], base)

    # ------------------------------------------------------------ statements
    def block(self, st, stmts, out):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(st, s, out)
        return st

    def stmt(self, st, n, out):
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m:
            return m(st, n, out)
        # expression statement
        self.cur = st
        v = self.ev(n)
        return self.cur

    def s_CompoundStmt(self, st, n, out):
        return self.block(st, n.get('inner', []), out)

    def s_NullStmt(self, st, n, out):
        return st

    def s_DeclStmt(self, st, n, out):
        for d in n.get('inner', []):
            if d['kind'] == 'VarDecl':
                st = self.vardecl(st, d)
                if st is None:
                    return None
            elif d['kind'] in ('TypedefDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'TypeAliasDecl', 'EmptyDecl'):
                pass
            else:
                self.unsup(d, 'local declaration')
        return st

    def vardecl(self, st, d):
        ty = d['type'].get('desugaredQualType', d['type']['qualType'])
        isref = ty.strip().endswith('&')
        t = parse_type(ty)
        init = [c for c in d.get('inner', []) if c['kind'] not in ('TypedefType',)]
        f = self.frames[-1]
        if d.get('storageClass') == 'static':
            return self.static_decl(st, d, t, init)
        self.nframe += 1
        key = '%s#%d' % (d['name'], self.nframe)
        f['vars'][d['id']] = key
        st.types[key] = t
        self.cur = st
        if isref:
            v = self.ev(init[0])
            st = self.cur
            if st is None:
                return None
            if not isinstance(v, Ref):
                v = self.newvar(st, 'tmp', v)
            f['refs'][d['id']] = v
            return st
        if init:
            if t[0] == 'arr':
                v = self.init_array(init[0], t)
            else:
                v = self.rvx(init[0], t)
            st = self.cur
            if st is None:
                return None
        else:
            v = self.uninit(t, d['name'])
        st.env[key] = v
        return st

    def static_decl(self, st, d, t, init):
        f = self.frames[-1]
        const = d['type']['qualType'].startswith('const')
        key = 'static ' + d['name'] + '@' + f['name']
        f['vars'][d['id']] = key
        st.types[key] = t
        if key not in st.env:
            if const and init:
                self.cur = st
                v = self.init_array(init[0], t) if t[0] == 'arr' else self.rvx(init[0], t)
                st = self.cur
                st.env[key] = v
            else:
                # a function-local static holds whatever any earlier call left in it
                v = fresh(t, 'static_' + d['name'])
                st.env[key] = v
                self.statics[key] = (v, t, d)
                inv = getattr(self.top, 'static_inv', None)
                if inv is not None:
                    if init:
                        self.cur = st
                        i0 = self.rvx(init[0], t); st = self.cur
                    else:
                        i0 = default_value(t)
                    for lb, g in inv(__import__("spec").view(i0), t):
                        self.oblige(st, 'initial value of the static: ' + lb, 'invariant', g, d)
                    for lb, g in inv(__import__("spec").view(v), t):
                        st.assume(g)
        return st

    def uninit(self, t, name):
        if t[0] in ('real', 'int', 'bool'):
            v = fresh(t, 'uninit_' + name)
            self.uninit_ids[v.get_id()] = v
            return v
        if t[0] == 'struct':
            # default construction always appears as an init expression; plain structs without one
            return fresh(t, name)
        if t[0] == 'arr':
            return VecVal(IntVal(t[2]), fresh(('vec', t[1]), 'uninit_' + name).a, t[1])
        return fresh(t, name) if t[0] not in ('vec', 'map', 'str', 'pair') else default_value(t)

    def init_array(self, n, t):
        n = self.strip(n)
        if n['kind'] == 'InitListExpr':
            items = n.get('inner', [])
            if 'array_filler' in n:
                items = [c for c in n['array_filler'] if c.get('kind') != 'ImplicitValueInitExpr']
            a = z3.K(IntSort(), default_packed(t[1]))
            for i, c in enumerate(items):
                v = self.init_array(c, t[1]) if t[1][0] == 'arr' else self.rvx(c, t[1])
                a = Store(a, IntVal(i), pack(v))
            return VecVal(IntVal(t[2]), a, t[1])
        if n['kind'] == 'CXXConstructExpr':
            return default_value(('vec', t[1])) if False else VecVal(IntVal(t[2]), z3.K(IntSort(), default_packed(t[1])), t[1])
        self.unsup(n, 'array initialiser')

    def strip(self, n):
        while n['kind'] in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr'):
            n = n['inner'][0]
        return n

    def s_IfStmt(self, st, n, out):
        inner = list(n['inner'])
        if n.get('hasInit'):
            st = self.stmt(st, inner.pop(0), out)
        if n.get('hasVar'):
            st = self.stmt(st, inner.pop(0), out)
        c = self.cond(st, inner[0])
        st = self.cur
        if st is None:
            return None
        return self.branch(st, c, lambda s: self.stmt(s, inner[1], out),
                           lambda s: self.stmt(s, inner[2], out) if len(inner) > 2 else s, n)

    def cond(self, st, n):
        self.cur = st
        return self.tobool(self.rvx(n, BOOL))

    def tobool(self, v):
        if isinstance(v, Null):
            return FALSE
        if isinstance(v, CArr):
            return mknot(v.null)
        if isinstance(v, Ptr):
            return TRUE
        if isinstance(v, Val):
            raise Unsupported('truth value of %s' % type(v).__name__)
        if z3.is_bool(v):
            return v
        return v != 0

    def s_ReturnStmt(self, st, n, out):
        inner = n.get('inner', [])
        f = self.frames[-1]
        if inner:
            self.cur = st
            if f['retref']:
                v = self.ev(inner[0])
            else:
                v = self.rvx(inner[0], f['rett'])
            st = self.cur
            if st is None:
                return None
            st.env['$ret%d' % f['id']] = v
            f['lastret'] = v
        out.ret.append((st, n))
        return None

    def s_BreakStmt(self, st, n, out):
        out.brk.append(st); return None

    def s_ContinueStmt(self, st, n, out):
        out.cont.append(st); return None

    def s_CXXTryStmt(self, st, n, out):
        inner = n['inner']
        base = len(st.pc)
        saved = self.throws; self.throws = []
        r = self.stmt(st, inner[0], out)
        caught = self.throws; self.throws = saved
        results = [r] if r is not None else []
        handler = inner[1]
        rest = []
        hin = [c for c in handler.get('inner', []) if c.get('kind')]
        body = hin[-1]
        vard = hin[0] if len(hin) > 1 else None
        ht = None
        if vard is not None:
            ht = vard['type']['qualType']
        for t in caught:
            if ht is None or exc_matches(t.exc, ht):
                s = t.st
                if vard is not None and vard.get('kind') == 'VarDecl':
                    self.nframe += 1
                    key = 'exc#%d' % self.nframe
                    self.frames[-1]['vars'][vard['id']] = key
                    s.env[key] = Opaque('exception')
                r2 = self.stmt(s, body, out)
                if r2 is not None:
                    results.append(r2)
            else:
                self.throws.append(t)
        if not results:
            return None
        return self.merge(results, [None] * len(results), base)

    def e_CXXThrowExpr(self, n):
        st = self.cur
        inner = n.get('inner', [])
        exc = inner[0]['type'].get('desugaredQualType', inner[0]['type']['qualType']) if inner else 'rethrow'
        self.throws.append(Throw(st, exc.replace('const ', ''), self.loc(n), self.cur_fn()))
        self.cur = None
        return Opaque('void')

    def s_CXXThrowExpr(self, st, n, out):
        self.cur = st
        self.e_CXXThrowExpr(n)
        return None

    # loops -------------------------------------------------------------
    def s_ForStmt(self, st, n, out):
        inner = n['inner']
        # init, condvar, cond, inc, body ; missing ones are {} nodes
        init, cv, cond, inc, body = inner[0], inner[1], inner[2], inner[3], inner[4]
        if init.get('kind'):
            st = self.stmt(st, init, out)
            if st is None:
                return None
        return self.loop(st, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body, n, out)

    def s_WhileStmt(self, st, n, out):
        inner = [c for c in n['inner']]
        return self.loop(st, inner[-2], None, inner[-1], n, out)

    def s_DoStmt(self, st, n, out):
        body, cond = n['inner'][0], n['inner'][1]
        o = Outcome()
        base = len(st.pc)
        r = self.stmt(st, body, o)
        out.ret += o.ret
        sts = ([r] if r is not None else []) + o.cont
        if not sts:
            return self.merge(o.brk, [None] * len(o.brk), base) if o.brk else None
        s = self.merge(sts, [None] * len(sts), base)
        s = self.loop(s, cond, None, body, n, out)
        alls = ([s] if s is not None else []) + o.brk
        return self.merge(alls, [None] * len(alls), base) if alls else None

    def s_CXXForRangeStmt(self, st, n, out):
        inner = [c for c in n['inner'] if c.get('kind')]
        # range decl, begin decl, end decl, cond, inc, loop var decl, body
        decls = [c for c in inner if c['kind'] == 'DeclStmt']
        body = inner[-1]
        lv = decls[-1]
        for d in decls[:-1]:
            st = self.stmt(st, d, out)
        rest = [c for c in inner if c['kind'] != 'DeclStmt']
        cond, inc = rest[0], rest[1]
        return self.loop(st, cond, inc, {'kind': 'CompoundStmt', 'inner': [lv, body], '_line': n.get('_line'), '_file': n.get('_file')}, n, out)

    def s_SwitchStmt(self, st, n, out):
        self.unsup(n, 'switch')

    def run_iter(self, st, cond, inc, body):
        """one iteration from a state at the loop head.
        returns (exit states[cond false], end-of-iteration states, break states, return states)"""
        out = Outcome()
        base = len(st.pc)
        exits = []
        if cond is not None:
            c = sb(self.cond(st, cond))
            st = self.cur
            if st is None:
                return [], [], [], [], None
        else:
            c = TRUE
        if not is_true(c):
            ex = st.fork(); ex.assume(mknot(c), 'b'); exits.append(ex)
        ends = []
        if not is_false(c):
            b = st.fork(); b.assume(c, 'b')
            r = self.stmt(b, body, out)
            sts = ([r] if r is not None else []) + out.cont
            if sts:
                s = self.merge(sts, [None] * len(sts), len(st.pc)) if len(sts) > 1 else sts[0]
                if inc is not None:
                    self.cur = s
                    self.ev(inc)
                    s = self.cur
                if s is not None:
                    ends.append(s)
        return exits, ends, out.brk, out.ret, c

    def paths(self, run):
        """run(i) once per path; the obligations and exceptional exits of all paths accumulate"""
        keep = self.oracle
        o = Oracle(self); n = 0
        try:
            while True:
                o.start(self)
                run(n)
                n += 1
                if n > 600:
                    raise Unsupported('too many paths')
                if not o.next():
                    break
        finally:
            self.oracle = keep
        return n

    def iterate(self, hh, cond, inc, body):
        if not self.opts.get('paths') or self.probe:
            return self.run_iter(hh, cond, inc, body)
        acc = [[], [], [], []]
        def run(i):
            ex, en, br, re, _ = self.run_iter(hh.fork(), cond, inc, body)
            if i == 0:
                acc[0].extend(ex)
            acc[1].extend(en); acc[2].extend(br); acc[3].extend(re)
        self.paths(run)
        return acc[0], acc[1], acc[2], acc[3], None

    def loop(self, st, cond, inc, body, node, out):
        orc = self.oracle
        if orc is not None:
            # the loop itself is cut here; which way it was left is a choice of the surrounding path
            self.oracle = None
            try:
                o2 = Outcome()
                r = self.loop_(st, cond, inc, body, node, o2, True)
            finally:
                self.oracle = orc
            alls = r + [None] * len(o2.ret)
            if not alls:
                return None
            k = orc.choose(lambda: list(range(len(alls)))) if len(alls) > 1 else 0
            if k >= len(r):
                out.ret.append(o2.ret[k - len(r)])
                return None
            return r[k]
        r = self.loop_(st, cond, inc, body, node, out, False)
        return r

    def loop_(self, st, cond, inc, body, node, out, multi):
        base = len(st.pc)
        # 1. try concrete unrolling
        r = self.try_unroll(st.fork(), cond, inc, body, node, out, base)
        if r is not None:
            if multi:
                return r
            return None if not r else r[0] if len(r) == 1 else self.merge(r, [None] * len(r), base)
        # 2. cut with invariants
        pre_keys = list(st.env)
        mods = {}
        self.suppress += 1; self.probe += 1
        saved_throws = self.throws; self.throws = []
        try:
            for rnd in range(8):
                h = st.fork()
                self.havoc(h, st, mods)
                exits, ends, brk, ret, _ = self.run_iter(h.fork(), cond, inc, body)
                new = {}
                for e in ends:
                    for kx in pre_keys:
                        if kx in e.env:
                            diff(h.env[kx], e.env[kx], (kx,), new)
                fresh_mods = {p: v for p, v in new.items() if p not in mods and not any(p[:len(q)] == q for q in mods)}
                if not fresh_mods:
                    break
                mods.update(fresh_mods)
                # drop sub-components of whole ones
                for p in list(mods):
                    if any(q != p and p[:len(q)] == q for q in mods):
                        del mods[p]
            else:
                self.unsup(node, 'loop write set did not stabilise')
        finally:
            self.suppress -= 1; self.probe -= 1
            self.throws = saved_throws
        h = st.fork()
        self.havoc(h, st, mods)
        label = 'loop@%s' % self.loc(node)
        cands = []
        if not self.probe:
            cands = self.candidates(st, h, mods, cond, inc, body, node)
            hist = self.cand_hist.setdefault(id(node), {})
            cands = [c for c in cands if not (hist.get(c[0], (0, 0))[0] >= 2 and hist[c[0]][1] == 0)]     # failed on earlier paths, never held
            allc = [c[0] for c in cands]
            # initial establishment
            entry_facts = st.facts()
            keep = []
            for (lb, fn) in cands:
                try:
                    g = fn(st); fn(h)
                except (Unsupported, z3.Z3Exception, KeyError, AttributeError, IndexError, TypeError) as err:
                    if DEBUG:
                        print('   candidate %s not applicable: %r' % (lb, err))
                    continue
                g = sb(g)
                if is_false(g):
                    continue
                keep.append((lb, fn, g))
            oks = S.par(lambda k: is_true(k[2]) or self.houdini_prove(entry_facts, k[2], k[0], 0).status == 'valid', keep)
            keep = [(lb, fn) for (lb, fn, g), ok in zip(keep, oks) if ok]
            if DEBUG:
                print('   houdini %s not initially: %s' % (label, [lb for lb, _ in cands if lb not in [k[0] for k in keep]]))
            cands = keep
        rounds = 0
        while True:
            rounds += 1
            hh = h.fork()
            for lb, fn in cands:
                hh.assume(fn(hh))
            mark_o = len(self.obls); mark_t = len(self.throws)
            hbase = len(hh.pc)
            exits, ends, brk, ret, _ = self.iterate(hh, cond, inc, body)
            if self.probe:
                break
            bad = []
            # the expensive candidates are looked at once the cheap ones are stable
            for hard in (True, False) if HOOK else (False, True):
                if bad:
                    break
                cs = [c for c in cands if c[0].startswith('!') == hard]
                def goal_of(fn, e):
                    try:
                        return sb(fn(e))
                    except (Unsupported, z3.Z3Exception, KeyError, AttributeError, IndexError, TypeError) as ex:
                        return FALSE
                def preserved(c):
                    lb, fn, es = c
                    for e in es:
                        g = goal_of(fn, e)
                        if is_true(g):
                            continue
                        if is_false(g):
                            return False
                        if HOOK:
                            HOOK(lb, e.facts(), g)
                        if self.houdini_prove(e.facts(), g, lb).status != 'valid':
                            return False
                    return True
                if hard:
                    items = [(lb, fn, [e]) for lb, fn in cs for e in ends]
                else:
                    items = [(lb, fn, ends) for lb, fn in cs]
                verdict = {}
                for (lb, fn, es), ok in zip(items, S.par(preserved, items)):
                    verdict[lb] = verdict.get(lb, True) and bool(ok)
                for lb, fn in cs:
                    ok = verdict.get(lb, True)
                    if not ok:
                        bad.append(lb)
            if not bad:
                break
            if DEBUG:
                print('   houdini %s round %d drops %s' % (label, rounds, bad))
            cands = [(lb, fn) for lb, fn in cands if lb not in bad]
            del self.obls[mark_o:]; del self.throws[mark_t:]
        if not self.probe:
            good = {lb for lb, _ in cands}
            for lb in allc:
                b, k = hist.get(lb, (0, 0))
                hist[lb] = (b, k + 1) if lb in good else (b + 1, k)
        if not self.probe and not self.suppress:
            self.loops.append(dict(loc=self.loc(node), fn=self.cur_fn(), inferred=[lb for lb, _ in cands], modified=['.'.join(str(x) for x in p) for p in mods], rounds=rounds))
            for lb, _ in cands:
                o = Obl('%s/invariant:%s' % (label, lb), 'loop-invariant', [], TRUE, self.loc(node), self.cur_fn())
                o.result = S.Result('valid', 'z3/ematch', 0.0)
                self.obls.append(o)
        out.ret += ret
        alls = exits + brk
        if multi:
            return alls
        if not alls:
            return None
        if len(alls) == 1:
            return alls[0]
        return self.merge(alls, [None] * len(alls), base)

    def houdini_prove(self, facts, g, lb, split=None):
        """candidates marked '!' are worth a proof by cases"""
        keep = S.SPLIT
        S.SPLIT = self.opts.get('split', 0) if lb.startswith('!') and split is None else 0
        try:
            return S.prove(facts, g, HOUDINI_TIMEOUT * (4 if lb.startswith('!') else 1), S.CONFIGS[:1])
        finally:
            S.SPLIT = keep

    def try_unroll(self, st, cond, inc, body, node, out, base):
        if cond is None:
            return None
        mark_o = len(self.obls); mark_t = len(self.throws)
        brks = []; rets = []
        self_ret = []
        s = st; s0 = st.fork(); done = []
        limit = self.opts.get('unroll', MAXUNROLL)
        for it in range(limit + 1):
            # peek at the condition
            s2 = s.fork()
            self.suppress += 1
            mt = len(self.throws)
            try:
                c = sb(self.cond(s2, cond))
            finally:
                self.suppress -= 1
                del self.throws[mt:]
            if not (is_true(c) or is_false(c)):
                # bounded after all?  only looked into when the first iteration is certain
                if it == 0 or it > 7 or self.opts.get('unroll', MAXUNROLL) == 0:
                    del self.obls[mark_o:]; del self.throws[mark_t:]
                    return None
                if S.quick_unsat(s.facts() + [c]):
                    c = FALSE
                elif self.no_bounded.get(id(node)):
                    del self.obls[mark_o:]; del self.throws[mark_t:]
                    return None
            exits, ends, brk, ret, _ = self.run_iter(s, cond, inc, body)
            brks += brk; rets += ret; done += exits
            if is_false(c) or not ends:
                alls = done + brks
                out.ret += rets
                return alls
            s = self.cut(s0, s, ends[0], node) if not self.probe and self.top is not None and self.top.cuts else ends[0]
        del self.obls[mark_o:]; del self.throws[mark_t:]
        self.no_bounded[id(node)] = node
        return None

    def cut(self, start, prev, end, node):
        """summarise one unrolled iteration: what it changed is forgotten except for the candidate facts that hold after it"""
        d = {}
        for k in start.env:
            if k in end.env:
                diff(prev.env[k], end.env[k], (k,), d)
        if not d:
            return end
        mods = {}
        for p in d:
            v = end.env[p[0]]
            for x in p[1:]:
                v = unfold(v) if isinstance(v, Packed) else v
                v = getattr(v, x[1:]) if isinstance(x, str) and x.startswith('.') else v.f[x] if isinstance(v, StructVal) else v
            if isinstance(v, z3.ExprRef) and (z3.is_int_value(v) or z3.is_rational_value(v) or is_true(v) or is_false(v) or litval(v) is not None):
                continue
            mods[p] = True
        L = LoopView(self, start, end, mods, node)
        cands = [x for sch in self.top.cuts for x in sch(L)]
        if not cands:
            return end
        facts = end.facts()
        def ok(c):
            try:
                g = sb(c[1](end))
            except (Unsupported, z3.Z3Exception, KeyError, AttributeError, IndexError, TypeError):
                return False
            return is_true(g) or self.houdini_prove(facts, g, c[0]).status == 'valid'
        good = [c for c, r in zip(cands, S.par(ok, cands)) if r]
        if DEBUG:
            print('   cut %s fails: %s' % (self.loc(node), [c[0] for c in cands if c not in good]))
        h = prev.fork()
        h.env = dict(end.env)
        self.havoc(h, end, mods)
        for lb, fn in good:
            h.assume(fn(h))
        if not self.suppress:
            for lb, _ in good:
                o = Obl('loop@%s/cut:%s' % (self.loc(node), lb), 'loop-invariant', [], TRUE, self.loc(node), self.cur_fn())
                o.result = S.Result('valid', 'z3/ematch', 0.0)
                self.obls.append(o)
        return h

    def havoc(self, h, st, mods):
        for p in mods:
            root = p[0]
            h.env[root] = havoc_path(h.env[root], p[1:], h, '.'.join(str(x) for x in p))

    def candidates(self, st, h, mods, cond, inc, body, node):
        out = []
        L = LoopView(self, st, h, mods, node)
        # generic ones
        bounds = []
        if cond is not None:
            self.cmp_bounds(cond, out)
        for hd in L.ints():
            out.append(('%s>=0' % hd.name, lambda s, hd=hd: hd(s) >= 0))
            out.append(('%s>=-1' % hd.name, lambda s, hd=hd: hd(s) >= -1))
            e0 = hd.entry
            out.append(('%s>=entry' % hd.name, lambda s, hd=hd, e0=e0: hd(s) >= e0))
            out.append(('%s<=entry' % hd.name, lambda s, hd=hd, e0=e0: hd(s) <= e0))
        ih = L.ints()
        for a, b in itertools.permutations(ih, 2):
            if a.entry is not None and len(ih) <= 6:
                out.append(('%s==%s' % (a.name, b.name), lambda s, a=a, b=b: a(s) == b(s)))
                out.append(('%s<=%s' % (a.name, b.name), lambda s, a=a, b=b: a(s) <= b(s)))
        for hd in L.reals():
            out.append(('%s>=0' % hd.name, lambda s, hd=hd: hd(s) >= 0))
        for hd in L.bools():
            pass
        if self.top is not None:
            schemas = list(self.top.loops)
            for f in self.frames:
                k = self.contracts.get(f.get('m'))
                if k is not None and k is not self.top:
                    schemas += [x for x in k.loops if x not in schemas]
            for sch in schemas:
                try:
                    for lb, fn in sch(L):
                        out.append((lb, fn))
                except (Unsupported, z3.Z3Exception, KeyError, AttributeError, IndexError, TypeError):
                    if sch in self.top.loops:
                        raise
        # unique labels
        seen = {}
        res = []
        for lb, fn in out:
            if lb in seen:
                seen[lb] += 1; lb = '%s~%d' % (lb, seen[lb])
            else:
                seen[lb] = 0
            res.append((lb, fn))
        return res

    def cmp_bounds(self, cond, out):
        """a<b, a!=b in the loop condition -> candidate a<=b (evaluated at the loop head)"""
        c = self.strip(cond)
        if c['kind'] == 'ImplicitCastExpr':
            return self.cmp_bounds(c['inner'][0], out)
        if c['kind'] == 'BinaryOperator':
            op = c['opcode']
            if op in ('&&',):
                for i in c['inner']:
                    self.cmp_bounds(i, out)
                return
            if op in ('<', '<=', '>', '>=', '!='):
                a, b = c['inner']
                if op in ('>', '>='):
                    a, b = b, a
                out.append(('bound:%s' % op, self.cand_cmp(a, b, False)))
                if op in ('<=', '>='):
                    out.append(('bound+1:%s' % op, self.cand_cmp(a, b, True)))
        if c['kind'] == 'CXXOperatorCallExpr':
            nm = self.callee_name(c)
            if nm in ('operator!=', 'operator<'):
                a, b = c['inner'][1], c['inner'][2]
                out.append(('iter-bound', self.cand_cmp(a, b, False)))

    def cand_cmp(self, a, b, plus):
        frames = list(self.frames)
        def fn(s):
            keep = self.cur if hasattr(self, 'cur') else None
            kf = self.frames; self.frames = frames
            self.suppress += 1
            mt = len(self.throws)
            try:
                self.cur = s.fork()
                x = self.rvx(a, None); y = self.rvx(b, None)
            finally:
                self.suppress -= 1
                self.frames = kf
                self.cur = keep
                del self.throws[mt:]
            if isinstance(x, Iter):
                x, y = x.pos, y.pos
            if isinstance(x, Val):
                raise Unsupported('cand')
            return x <= (y + 1 if plus else y)
        return fn

    # ------------------------------------------------------------ expressions
    def rvx(self, n, t=None):
        """evaluate to an rvalue"""
        v = self.ev(n)
        if self.cur is None:
            return default_value(t) if t is not None and is_scalar(t) else Opaque('dead')
        return self.rv(self.cur, v)

    def ev(self, n):
        if self.cur is None:
            t = self.etype(n) if 'type' in n else VOID
            return default_value(t) if is_scalar(t) else Opaque('dead')
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            self.unsup(n, 'expression kind')
        return m(n)

    def pass1(self, n):
        return self.ev(n['inner'][0])
    e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ParenExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = pass1

    def e_MaterializeTemporaryExpr(self, n):
        return self.ev(n['inner'][0])

    def e_CXXDefaultInitExpr(self, n):
        self.unsup(n, 'default member initialiser')

    def e_ImplicitValueInitExpr(self, n):
        return default_value(self.etype(n))
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_ImplicitCastExpr(self, n):
        ck = n['castKind']
        x = n['inner'][0]
        return self.cast(n, ck, x)

    def cast(self, n, ck, x):
        if ck == 'LValueToRValue':
            return self.rvx(x, self.etype(x))
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerived', 'Dynamic', 'BitCast'):
            v = self.ev(x)
            if ck == 'UserDefinedConversion':
                v = self.rv(self.cur, v) if self.cur is not None else v
            return v
        if ck in ('IntegralCast',):
            v = self.rvx(x, self.etype(x))
            t = self.etype(n); tx = self.etype(x)
            if z3.is_bool(v):
                return If(v, IntVal(1), IntVal(0))
            if t[0] == 'int' and tx[0] == 'int' and not t[1] and tx[1] and t[2] == 64:
                # signed -> unsigned 64
                if z3.is_int_value(v) and v.as_long() >= 0:
                    return v
                if self.opts.get('paths') and not z3.is_int_value(v) and S.quick_unsat(self.cur.facts() + [v < 0], 0.15):
                    return v
                return If(v >= 0, v, v + IntVal(2 ** 64)) if not z3.is_int_value(v) else IntVal(v.as_long() % 2 ** 64)
            if t[0] == 'int' and tx[0] == 'int' and t[1] and not tx[1]:
                # unsigned -> signed: sizes are far below 2^31 unless they come from a wrap
                if z3.is_int_value(v):
                    b = t[2]; r = v.as_long() % 2 ** b
                    return IntVal(r - 2 ** b if r >= 2 ** (b - 1) else r)
                w = _unwrap_u(v)
                if w is not None:
                    return w
                return v
            return v
        if ck == 'IntegralToFloating':
            v = self.rvx(x, self.etype(x))
            if z3.is_bool(v):
                return If(v, RealVal(1), RealVal(0))
            return to_real(v)
        if ck in ('FloatingCast',):
            return self.rvx(x, self.etype(x))
        if ck == 'FloatingToIntegral':
            v = self.rvx(x, self.etype(x))
            if z3.is_rational_value(v):
                f = Fraction(v.numerator_as_long(), v.denominator_as_long())
                return IntVal(int(f))
            return If(v >= 0, ToInt(v), -ToInt(-v))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.tobool(self.rvx(x, self.etype(x)))
        if ck == 'ArrayToPointerDecay':
            v = self.ev(x)
            if isinstance(v, Ref):
                return CArr(v, IntVal(0))
            return v      # string literal
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return Opaque('fn')
        if ck == 'NullToPointer':
            return Null()
        if ck == 'ToVoid':
            self.ev(x); return Opaque('void')
        self.unsup(n, 'cast ' + ck)

    def e_CXXFunctionalCastExpr(self, n):
        return self.cast(n, n['castKind'], n['inner'][0])
    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_CXXFunctionalCastExpr

    def e_IntegerLiteral(self, n):
        return IntVal(int(n['value']))

    def e_CharacterLiteral(self, n):
        return IntVal(int(n['value']))

    def e_CXXBoolLiteralExpr(self, n):
        return BoolVal(bool(n['value']))

    def e_FloatingLiteral(self, n):
        return RealVal(str(Fraction(n['value'])))

    def e_StringLiteral(self, n):
        import ast as _a
        s = n['value']
        try:
            return strlit(_a.literal_eval(s))
        except Exception:
            return strlit(s)

    def e_GNUNullExpr(self, n):
        return IntVal(0) if self.etype(n)[0] == 'int' else Null()

    def e_CXXNullPtrLiteralExpr(self, n):
        return Null()

    def e_CXXThisExpr(self, n):
        return Ptr(self.frames[-1]['this'])

    def e_DeclRefExpr(self, n):
        r = n['referencedDecl']
        if r['kind'] in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            for f in (self.frames[-1],):
                if r['id'] in f['refs']:
                    return f['refs'][r['id']]
                if r['id'] in f['vars']:
                    return Ref(f['vars'][r['id']])
            return self.global_var(n, r)
        if r['kind'] == 'EnumConstantDecl':
            self.unsup(n, 'enum')
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return Opaque('fn:' + r.get('mangledName', r['name']))
        self.unsup(n, 'reference to ' + r['kind'])

    def global_var(self, n, r):
        nm = r['name']
        if nm in ('cout', 'cerr', 'clog'):
            return Opaque('cout')
        t = parse_type(r['type'].get('desugaredQualType', r['type']['qualType']))
        key = 'global ' + nm
        st = self.cur
        if key in st.env:
            return Ref(key)
        d = self.prog.globals.get(nm)
        if d is not None and 'const' in d['type']['qualType']:
            # constants initialised at namespace scope
            self.frames.append(dict(id=-1, vars={}, refs={}, this=None, name='global', retref=False, rett=VOID))
            try:
                init = d['inner'][-1]
                v = self.init_array(init, t) if t[0] == 'arr' else self.rvx(init, t)
            finally:
                self.frames.pop()
            self.cur.env[key] = v
            return Ref(key)
        if nm == 'npos':
            return IntVal(2 ** 64 - 1)
        if t[0] == 'opaque':
            return Opaque('global ' + nm)
        if d is not None:
            st.env[key] = fresh(t, nm)
            return Ref(key)
        self.unsup(n, 'global ' + nm)

    def e_MemberExpr(self, n):
        base = n['inner'][0]
        nm = n['name']
        # static data members
        tu = self.tu()
        d = tu.byid.get(n.get('referencedMemberDecl'))
        if d is not None and d['kind'] == 'VarDecl':
            return self.global_var(n, d)
        b = self.ev(base)
        if n.get('isArrow'):
            b = self.rv(self.cur, b)
            if isinstance(b, Ptr):
                b = b.ref
            elif isinstance(b, Iter):
                b = self.deref(b, n)
            elif isinstance(b, PairView):
                pass
            else:
                self.unsup(n, 'arrow on %s' % type(b).__name__)
        if isinstance(b, PairView):
            return b.first if nm == 'first' else b.second
        if isinstance(b, Ref):
            return b.sub(('f', nm))
        b = unfold(b)
        if isinstance(b, StructVal):
            return b.f[nm]
        self.unsup(n, 'member %s of %s' % (nm, type(b).__name__))

    def tu(self):
        return self.frames[-1]['tu']

    def e_ArraySubscriptExpr(self, n):
        b = self.rvx(n['inner'][0])
        i = self.rvx(n['inner'][1])
        if isinstance(b, CArr):
            arr = self.load(self.cur, b.ref)
            arr = unfold(arr)
            idx = simp(b.off + i)
            if not is_false(b.null):
                self.oblige(self.cur, 'pointer is not null', 'safety', mknot(b.null), n)
            self.oblige(self.cur, 'array index in bounds', 'safety', And(idx >= 0, idx < arr.n), n)
            return b.ref.sub(('i', idx))
        if isinstance(b, Ptr) and b.ref.path and b.ref.path[-1][0] == 'i':
            vref = Ref(b.ref.root, b.ref.path[:-1])
            idx = simp(b.ref.path[-1][1] + i)
            vec = unfold(self.load(self.cur, vref))
            self.oblige(self.cur, 'pointer index in bounds', 'safety', And(idx >= 0, idx < vec.n), n)
            return vref.sub(('i', idx))
        if not isinstance(b, Val) and b.sort() == Str:
            return self.str_at(b, i, n)
        self.unsup(n, 'subscript of %s' % type(b).__name__)

    def str_at(self, s, i, n):
        l = litval(s)
        if l is not None and z3.is_int_value(i) and 0 <= i.as_long() < len(l):
            return IntVal(ord(l[i.as_long()]))
        self.oblige(self.cur, 'string index in bounds', 'safety', And(i >= 0, i <= slen(s)), n)
        return schar(s, i)

    def e_UnaryOperator(self, n):
        op = n['opcode']; x = n['inner'][0]
        if op in ('++', '--'):
            r = self.ev(x)
            if self.cur is None:
                return IntVal(0)
            old = self.load(self.cur, r)
            d = 1 if op == '++' else -1
            if isinstance(old, (Ptr, CArr)):
                self.unsup(n, 'pointer arithmetic')
            t = self.etype(x)
            one = RealVal(d) if old.sort() == RealSort() else IntVal(d)
            new = simp(old + one)
            if t[0] == 'int' and not t[1] and d < 0:
                new = simp(If(old >= 1, old - 1, IntVal(2 ** t[2] - 1)))
            self.store(self.cur, r, new)
            return old if n.get('isPostfix') else r
        if op == '&':
            v = self.ev(x)
            if isinstance(v, Ref):
                return Ptr(v)
            self.unsup(n, 'address of temporary')
        if op == '*':
            v = self.rvx(x)
            if isinstance(v, Ptr):
                return v.ref
            if isinstance(v, CArr):
                if not is_false(v.null):
                    self.oblige(self.cur, 'pointer is not null', 'safety', mknot(v.null), n)
                return v.ref.sub(('i', v.off))
            if isinstance(v, Iter):
                return self.deref(v, n)
            self.unsup(n, 'dereference of %s' % type(v).__name__)
        v = self.rvx(x, self.etype(x))
        if op == '-':
            return simp(-v) if (z3.is_rational_value(v) or z3.is_int_value(v)) else -v
        if op == '+':
            return v
        if op == '!':
            return mknot(self.tobool(v))
        if op == '~':
            self.unsup(n, 'bit operation')
        self.unsup(n, 'unary ' + op)

    def e_BinaryOperator(self, n):
        op = n['opcode']; a, b = n['inner']
        if op in ('&&', '||'):
            ca = sb(self.tobool(self.rvx(a, BOOL)))
            if self.cur is None:
                return FALSE
            if op == '&&' and is_false(ca):
                return FALSE
            if op == '||' and is_true(ca):
                return TRUE
            if is_true(ca) or is_false(ca):
                return self.tobool(self.rvx(b, BOOL))
            st = self.cur
            base = len(st.pc)
            other = st.fork(); other.assume(mknot(ca) if op == '&&' else ca, 'b')
            st2 = st.fork(); st2.assume(ca if op == '&&' else mknot(ca), 'b')
            self.cur = st2
            cb = self.tobool(self.rvx(b, BOOL))
            st2 = self.cur
            if st2 is None:
                self.cur = other
                return FALSE if op == '&&' else TRUE
            same = all(st2.env.get(k) is v for k, v in st.env.items()) and len(st2.pc) == base + 1
            if same:
                self.cur = st
            else:
                g = ca if op == '&&' else mknot(ca)
                self.cur = self.merge([st2, other], [g, mknot(g)], base)
            return mkand(ca, cb) if op == '&&' else mkor(ca, cb)
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op == '=':
            v = self.rvx(b, self.etype(b))      # C++17: the right operand is sequenced first
            if self.cur is None:
                return Opaque('dead')
            r = self.ev(a)
            if self.cur is None:
                return Opaque('dead')
            self.store(self.cur, r, v)
            return r
        x = self.rvx(a, self.etype(a)); y = self.rvx(b, self.etype(b))
        if self.cur is None:
            return default_value(self.etype(n))
        return self.binop(op, x, y, n, self.etype(a))

    def binop(self, op, x, y, n, t):
        if isinstance(x, (Null, Ptr, CArr)) or isinstance(y, (Null, Ptr, CArr)):
            if op in ('==', '!='):
                if isinstance(x, Null) and isinstance(y, Null):
                    r = TRUE
                elif isinstance(x, Null) or isinstance(y, Null):
                    z = y if isinstance(x, Null) else x
                    r = z.null if isinstance(z, CArr) else FALSE
                elif isinstance(x, Ptr) and isinstance(y, Ptr) and same_ref(x.ref, y.ref):
                    r = TRUE
                else:
                    self.unsup(n, 'pointer comparison')
                return r if op == '==' else mknot(r)
            if isinstance(x, CArr) and op in ('+', '-'):
                return CArr(x.ref, simp(x.off + (y if op == '+' else -y)), x.null)
            self.unsup(n, 'pointer arithmetic')
        if isinstance(x, Val) or isinstance(y, Val):
            self.unsup(n, 'operator %s on %s' % (op, type(x).__name__))
        if z3.is_bool(x) and not z3.is_bool(y):
            x = If(x, IntVal(1), IntVal(0))
        if z3.is_bool(y) and not z3.is_bool(x):
            y = If(y, IntVal(1), IntVal(0))
        if z3.is_bool(x) and z3.is_bool(y) and op not in ('==', '!='):
            x = If(x, IntVal(1), IntVal(0)); y = If(y, IntVal(1), IntVal(0))
        if op == '==':
            return x == y
        if op == '!=':
            return mknot(x == y)
        if op == '<':
            return x < y
        if op == '<=':
            return x <= y
        if op == '>':
            return x > y
        if op == '>=':
            return x >= y
        lit = all(z3.is_int_value(z) or z3.is_rational_value(z) for z in (x, y))
        if op == '+':
            r = x + y
        elif op == '-':
            r = x - y
            if t[0] == 'int' and not t[1]:
                if z3.is_int_value(x) and z3.is_int_value(y):
                    return IntVal((x.as_long() - y.as_long()) % 2 ** t[2])
                r = simp(r) if False else r
                return If(x >= y, r, r + IntVal(2 ** t[2]))
        elif op == '*':
            r = x * y
        elif op == '/':
            if x.sort() == RealSort() or y.sort() == RealSort():
                if z3.is_rational_value(y) and y.numerator_as_long() != 0:
                    r = x / y
                else:
                    if self.opts.get('div0', True):
                        self.oblige(self.cur, 'division by zero', 'safety', y != 0, n)
                    r = x / y
            else:
                self.oblige(self.cur, 'integer division by zero', 'safety', y != 0, n)
                r = If(And(x >= 0, y > 0), x / y, If(And(x < 0, y > 0), -((-x) / y), If(And(x >= 0, y < 0), -(x / (-y)), (-x) / (-y))))
        elif op == '%':
            self.oblige(self.cur, 'integer division by zero', 'safety', y != 0, n)
            r = If(And(x >= 0, y > 0), x % y, fresh(INT, 'mod'))
        elif op in ('>>', '<<') and z3.is_int_value(simp(y)) and 0 <= simp(y).as_long() < 63:
            k = IntVal(2 ** simp(y).as_long())
            r = x / k if op == '>>' else x * k       # the SMT division by a positive constant rounds down, like the shift
        else:
            self.unsup(n, 'binary ' + op)
        return simp(r) if lit or t[0] == 'int' else r

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = n['inner']
        r = self.ev(a)
        y = self.rvx(b, self.etype(b))
        if self.cur is None:
            return r
        x = self.load(self.cur, r)
        ct = n.get('computeResultType', n['type'])
        tt = parse_type(ct.get('desugaredQualType', ct['qualType']))
        if tt[0] == 'real' and z3.is_int(x):
            x = to_real(x)
        if tt[0] == 'real' and z3.is_int(y):
            y = to_real(y)
        v = self.binop(op, x, y, n, tt)
        if self.etype(n)[0] == 'int' and v.sort() == RealSort():
            v = If(v >= 0, ToInt(v), -ToInt(-v))
        self.store(self.cur, r, v)
        return r

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        cc = sb(self.tobool(self.rvx(c, BOOL)))
        if self.cur is None:
            return default_value(self.etype(n)) if is_scalar(self.etype(n)) else Opaque('dead')
        lv = n.get('valueCategory') == 'lvalue'
        if is_true(cc):
            return self.ev(a)
        if is_false(cc):
            return self.ev(b)
        st = self.cur; base = len(st.pc)
        s1 = st.fork(); s1.assume(cc, 'b'); self.cur = s1
        va = self.rvx(a, self.etype(a)); s1 = self.cur
        s2 = st.fork(); s2.assume(mknot(cc), 'b'); self.cur = s2
        vb = self.rvx(b, self.etype(b)); s2 = self.cur
        if s1 is None:
            self.cur = s2; return vb
        if s2 is None:
            self.cur = s1; return va
        self.cur = self.merge([s1, s2], [cc, mknot(cc)], base)
        return ite_val(cc, va, vb)

    def e_InitListExpr(self, n):
        t = self.etype(n)
        items = n.get('inner', [])
        if t[0] == 'arr':
            return self.init_array(n, t)
        if t[0] == 'struct':
            fl = fields_of(t[1])
            return StructVal(t, {f: self.rvx(c, ft) for (f, ft), c in zip(fl, items)})
        if t[0] == 'pair':
            return StructVal(t, {'first': self.rvx(items[0], t[1]), 'second': self.rvx(items[1], t[2])})
        if is_scalar(t):
            return self.rvx(items[0], t) if items else default_value(t)
        self.unsup(n, 'init list')

    def e_CXXStdInitializerListExpr(self, n):
        x = self.strip(n['inner'][0])
        if x['kind'] == 'InitListExpr':
            t = self.etype(x)
            return self.init_array(x, t if t[0] == 'arr' else ('arr', t, len(x.get('inner', []))))
        self.unsup(n, 'initializer_list')

    def e_CXXDefaultArgExpr(self, n):
        self.unsup(n, 'default argument')

    # construction -------------------------------------------------------
    def e_CXXConstructExpr(self, n):
        t = self.etype(n)
        args = [a for a in n.get('inner', []) if a['kind'] != 'CXXDefaultArgExpr']
        k = t[0]
        if k == 'struct':
            return self.construct_struct(n, t, n.get('inner', []))
        if len(args) == 1 and not n.get('list'):
            ta = self.etype(args[0])
            if ta == t and k != 'opaque':
                return self.rvx(args[0], t)
        if k == 'str':
            if not args:
                return strlit('')
            v = self.rvx(args[0])
            if len(args) == 1:
                if not isinstance(v, Val) and v.sort() == Str:
                    return v
                if isinstance(v, Opaque):
                    return fresh(STR, 'str')
            self.unsup(n, 'string constructor')
        if k == 'vec':
            if not args:
                return default_value(t)
            v = self.rvx(args[0])
            if len(args) == 1:
                if isinstance(v, VecVal):
                    return v
                if not isinstance(v, Val):
                    return VecVal(v, z3.K(IntSort(), default_packed(t[1])), t[1])
            if len(args) == 2:
                w = self.rvx(args[1])
                if isinstance(v, CArr) and isinstance(w, CArr) and same_ref(v.ref, w.ref):
                    v = Iter(v.ref, v.off, None); w = Iter(w.ref, w.off, None)
                if isinstance(v, Iter):
                    return self.vec_slice(v, w, n)
                if not isinstance(v, Val):
                    return VecVal(v, z3.K(IntSort(), pack(w)), t[1])
            self.unsup(n, 'vector constructor')
        if k == 'map':
            if not args:
                return default_value(t)
            v = self.rvx(args[0])
            if isinstance(v, MapVal):
                return v
            if isinstance(v, VecVal) and z3.is_int_value(v.n):
                m = default_value(t)
                for i in range(v.n.as_long()):
                    p = unfold(wrap(sel(v.a, IntVal(i)), v.et))
                    m = MapVal(Store(m.dom, pack(p.f['first']), TRUE), Store(m.val, pack(p.f['first']), pack(p.f['second'])), m.kt, m.vt)
                return m
            self.unsup(n, 'map constructor')
        if k == 'pair':
            if not args:
                return default_value(t)
            if len(args) == 2:
                return StructVal(t, {'first': self.coerce(self.rvx(args[0]), t[1]), 'second': self.coerce(self.rvx(args[1]), t[2])})
            v = unfold(self.rvx(args[0]))
            if isinstance(v, PairView):
                return StructVal(t, {'first': self.rv(self.cur, v.first), 'second': self.rv(self.cur, v.second)})
            if isinstance(v, StructVal):
                return StructVal(t, dict(v.f))
            self.unsup(n, 'pair constructor')
        if k == 'iter':
            if not args:
                return Opaque('singular iterator')
            return self.rvx(args[0])
        if k in ('opaque',):
            for a in args:
                pass
            return Opaque(t[1])
        if k == 'riter':
            return self.rvx(args[0])
        if is_scalar(t):
            return self.coerce(self.rvx(args[0]), t) if args else default_value(t)
        self.unsup(n, 'construct %r' % (t,))
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def coerce(self, v, t):
        if isinstance(v, Val):
            return v
        if t[0] == 'real' and z3.is_int(v):
            return to_real(v)
        return v

    def construct_struct(self, n, t, args):
        cls = t[1]
        ct = n['ctorType']['qualType']
        node = self.find_ctor(cls, ct)
        if node is None or (node.get('isImplicit') and len(args) == 1):
            # implicit copy / move
            if len(args) == 1 and self.etype(args[0]) == t:
                return self.rvx(args[0], t)
            if node is None:
                self.unsup(n, 'constructor %s %s' % (cls, ct))
        obj = self.newvar(self.cur, 'obj_' + cls.split('::')[-1], fresh(t, 'new' + cls.split('::')[-1]))
        root = obj.root
        self.call_fn(node, obj, args, n, ctor=True)
        if self.cur is None:
            return Opaque('dead')
        v = self.load(self.cur, obj)
        return v

    def find_ctor(self, cls, ct):
        short = cls.split('::')[-1]
        for m in self.prog.by_qual.get(cls + '::' + short, []):
            nd = self.prog.funcs.get(m) or self.prog.decls.get(m)
            if nd['type']['qualType'].replace(' noexcept(false)', '').replace(' noexcept', '') == ct.replace(' noexcept(false)', '').replace(' noexcept', ''):
                return self.prog.funcs.get(m, nd)
        return None

    # calls ---------------------------------------------------------------
    def callee_name(self, n):
        c = n['inner'][0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        if c['kind'] == 'DeclRefExpr':
            return c['referencedDecl']['name']
        if c['kind'] == 'MemberExpr':
            return c['name']
        return None

    def callee_decl(self, n):
        c = n['inner'][0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        if c['kind'] == 'DeclRefExpr':
            return c['referencedDecl'], None
        if c['kind'] == 'MemberExpr':
            return c, c['inner'][0]
        self.unsup(n, 'indirect call')

    def is_output(self, n):
        """leftmost operand of an << chain is a std stream object that is only written"""
        x = n
        while True:
            x = self.strip(x)
            if x['kind'] == 'ImplicitCastExpr':
                x = x['inner'][0]; continue
            if x['kind'] in ('CXXOperatorCallExpr', 'CallExpr') and self.callee_name(x) in ('operator<<',):
                x = x['inner'][1]; continue
            if x['kind'] == 'CXXMemberCallExpr' and self.callee_name(x) in ('operator<<',):
                x = x['inner'][0]['inner'][0]; continue
            break
        if x['kind'] == 'DeclRefExpr' and x['referencedDecl'].get('name') in ('cout', 'cerr', 'clog'):
            return True
        t = x.get('type', {}).get('qualType', '')
        return 'ostream' in t or 'stringstream' in t.split('<')[0] and 'istring' not in t

    def e_CXXOperatorCallExpr(self, n):
        nm = self.callee_name(n)
        args = n['inner'][1:]
        if nm == 'operator<<':
            if self.is_output(n):
                self.dropped.add('stream output')
                return Opaque('cout')
        if nm == 'operator()' :
            return self.call_functor(n, args)
        t0 = self.etype(args[0])
        if t0[0] == 'struct':
            return self.user_operator(n, nm, args)
        if len(args) > 1 and self.etype(args[1])[0] == 'struct' and nm not in ('operator=', 'operator[]'):
            return self.user_operator(n, nm, args)
        return self.builtin_op(n, nm, args, t0)

    def user_operator(self, n, nm, args):
        d, _ = self.callee_decl(n)
        t0 = self.etype(args[0])
        if nm == 'operator=' and t0[0] == 'struct':
            tu = self.tu()
            dd = tu.byid.get(d['id'])
            if dd is None or dd.get('isImplicit'):
                v = self.rvx(args[1])
                if self.cur is None:
                    return Opaque('dead')
                r = self.ev(args[0])
                if self.cur is None:
                    return Opaque('dead')
                if isinstance(v, Val) and isinstance(v, StructVal) and v.t != t0:
                    v = slice_struct(v, t0)
                self.store(self.cur, r, v)
                return r
        tu = self.tu()
        dd = tu.byid.get(d['id'])
        if dd is None:
            self.unsup(n, 'user operator ' + nm)
        node = self.prog.funcs.get(dd.get('mangledName'))
        if node is None:
            self.unsup(n, 'user operator without body ' + nm)
        if dd['kind'] == 'CXXMethodDecl':
            ob = self.ev(args[0])
            if not isinstance(ob, Ref):
                ob = self.newvar(self.cur, 'tmp', ob)
            return self.call_fn(node, ob, args[1:], n)
        return self.call_fn(node, None, args, n)

    def call_functor(self, n, args):
        t0 = self.etype(args[0])
        if t0[0] == 'struct':
            return self.user_operator(n, 'operator()', args)
        self.unsup(n, 'functor call')

    def is_lit_false(self, x):
        return z3.is_false(x)

    def builtin_op(self, n, nm, args, t0):
        k = t0[0]
        if nm == 'operator[]':
            b = self.ev(args[0])
            i = self.rvx(args[1])
            if self.cur is None:
                return Opaque('dead')
            return self.index(b, i, t0, n)
        if nm == 'operator=':
            v = self.rvx(args[1])
            if self.cur is None:
                return Opaque('dead')
            r = self.ev(args[0])
            if self.cur is None:
                return Opaque('dead')
            if k == 'str' and not isinstance(v, Val) and z3.is_int(v):
                v = sofc(v)
            if k == 'opaque':
                return r
            if isinstance(v, VecVal) and k == 'vec' and False:
                pass
            self.store(self.cur, r, v)
            return r
        if nm in ('operator++', 'operator--'):
            r = self.ev(args[0])
            if self.cur is None:
                return r
            it = self.load(self.cur, r)
            if not isinstance(it, (Iter, RIter)):
                self.unsup(n, nm + ' on ' + type(it).__name__)
            d = 1 if nm == 'operator++' else -1
            if isinstance(it, RIter):
                d = -d
            if isinstance(it, FindIter):
                it = Iter(it.ref, it.pos, it.t, unfold(self.load(self.cur, it.ref)).dom)
            new = type(it)(it.ref, simp(it.pos + d), it.t, it.dom)
            self.store(self.cur, r, new)
            return it if len(args) > 1 else r
        if nm == 'operator*':
            it = self.rvx(args[0])
            return self.deref(it, n)
        if nm == 'operator->':
            it = self.rvx(args[0])
            d = self.deref(it, n)
            return d if isinstance(d, PairView) else Ptr(d)
        if nm == 'operator!':
            v = self.ev(args[0])
            return Const('streamfail!%d' % self._bump(), BoolSort())
        if nm == 'operator>>':
            v = self.ev(args[0])
            tgt = self.ev(args[1])
            if isinstance(tgt, Ref):
                self.store(self.cur, tgt, fresh(self.etype(args[1]), 'streamin'))
            return v
        if nm == 'operator<<':
            # insertion into a local string stream: text content not modelled
            self.ev(args[0])
            for a in args[1:]:
                self.ev(a)
            self.dropped.add('string stream formatting')
            return Opaque('cout')
        if nm == 'operator,':
            self.ev(args[0]); return self.ev(args[1])
        x = self.rvx(args[0])
        if nm == 'operator+=' and k == 'str':
            r = self.ev(args[0])
            y = self.rvx(args[1])
            v = self.scat(self.tostr(x), self.tostr(y))
            self.store(self.cur, r, v)
            return r
        y = self.rvx(args[1])
        if self.cur is None:
            return default_value(self.etype(n)) if is_scalar(self.etype(n)) else Opaque('dead')
        if isinstance(x, (Iter, RIter)):
            if nm in ('operator+=', 'operator-='):
                r = self.ev(args[0])
                new = Iter(x.ref, simp(x.pos + y if nm == 'operator+=' else x.pos - y), x.t)
                self.store(self.cur, r, new)
                return r
            return self.iter_op(nm, x, y, n)
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if nm in ('operator==', 'operator!='):
                return Const('opqcmp!%d' % self._bump(), BoolSort())
            if nm in ('operator+', 'operator-', 'operator|'):
                return Opaque('opq')
            self.unsup(n, nm + ' on opaque')
        tx = k
        ty = self.etype(args[1])[0]
        if isinstance(x, CArr) or isinstance(y, CArr):
            if nm in ('operator==', 'operator!=') :
                self.unsup(n, 'c string compare')
        isstr = (not isinstance(x, Val) and x.sort() == Str) or (not isinstance(y, Val) and y.sort() == Str)
        if isstr:
            if nm in ('operator==', 'operator!='):
                r = _lit_eq(x, y)
                return r if nm == 'operator==' else mknot(r)
            if nm == 'operator+':
                return self.scat(self.tostr(x), self.tostr(y))
            if nm == 'operator<':
                return self.strlt(x, y)
            if nm == 'operator>':
                return self.strlt(y, x)
            if nm == 'operator<=':
                return mknot(self.strlt(y, x))
            if nm == 'operator>=':
                return mknot(self.strlt(x, y))
        if nm in ('operator==', 'operator!='):
            r = self.val_eq(x, y)
            return r if nm == 'operator==' else mknot(r)
        if k == 'pair' and nm == 'operator<':
            x = unfold(x); y = unfold(y)
            return mkor(self.lt(x.f['first'], y.f['first']), mkand(self.val_eq(x.f['first'], y.f['first']), self.lt(x.f['second'], y.f['second'])))
        self.unsup(n, nm + ' on %r' % (t0,))

    def lt(self, a, b):
        if a.sort() == Str:
            return self.strlt(a, b)
        return a < b

    def strlt(self, x, y):
        a, b = litval(x), litval(y)
        if a is not None and b is not None:
            return BoolVal(a < b)
        return slt(x, y)

    def tostr(self, x):
        if isinstance(x, Opaque):
            return fresh(STR, 'str')
        if z3.is_int(x):
            if z3.is_int_value(x):
                return strlit(chr(x.as_long()))
            return sofc(x)
        return x

    def scat(self, a, b):
        la, lb = litval(a), litval(b)
        if la is not None and lb is not None:
            return strlit(la + lb)
        if la == '':
            return b
        if lb == '':
            return a
        return scat(a, b)

    def _bump(self):
        V._fresh[0] += 1
        return V._fresh[0]

    def val_eq(self, a, b):
        if not isinstance(a, Val):
            if a.sort() == Str:
                return _lit_eq(a, b)
            return a == b
        a = unfold(a); b = unfold(b)
        if isinstance(a, VecVal):
            i = Const('eqi', IntSort())
            return mkand(a.n == b.n, ForAll([i], Implies(And(i >= 0, i < a.n), Select(a.a, i) == Select(b.a, i))))
        if isinstance(a, MapVal):
            kx = Const('eqk', a.dom.sort().domain())
            return mkand(a.dom == b.dom, ForAll([kx], Implies(Select(a.dom, kx), Select(a.val, kx) == Select(b.val, kx))))
        if isinstance(a, StructVal):
            return mkand(*[self.val_eq(a.f[f], b.f[f]) for f in a.f])
        if isinstance(a, Iter):
            return a.pos == b.pos
        raise Unsupported('equality of %s' % type(a).__name__)

    def iter_op(self, nm, x, y, n):
        if nm in ('operator==', 'operator!='):
            if isinstance(y, Opaque):
                self.unsup(n, 'comparison with singular iterator')
            if isinstance(y, FindIter) and not isinstance(x, FindIter):
                x, y = y, x
            r = None
            if isinstance(x, FindIter) and not isinstance(y, FindIter) and isinstance(y, Iter):
                m = unfold(self.load(self.cur, y.ref))
                if y.pos.eq(self.size_of(m)):
                    r = mknot(x.has)
            if r is None:
                r = simp(x.pos == y.pos)
            return r if nm == 'operator==' else mknot(r)
        if isinstance(x, RIter):
            self.unsup(n, 'reverse iterator arithmetic')
        if nm in ('operator<', 'operator>', 'operator<=', 'operator>='):
            return {'operator<': x.pos < y.pos, 'operator>': x.pos > y.pos, 'operator<=': x.pos <= y.pos, 'operator>=': x.pos >= y.pos}[nm]
        if nm == 'operator-':
            if isinstance(y, Iter):
                return simp(x.pos - y.pos)
            return Iter(x.ref, simp(x.pos - y), x.t)
        if nm == 'operator+':
            return Iter(x.ref, simp(x.pos + y), x.t)
        self.unsup(n, nm + ' on iterator')

    def size_of(self, c):
        c = unfold(c)
        if isinstance(c, VecVal):
            return c.n
        if isinstance(c, MapVal):
            if z3.is_const_array(c.dom) and is_false(c.dom.arg(0)):
                return IntVal(0)
            return card(c.dom)
        if not isinstance(c, Val) and c.sort() == Str:
            l = litval(c)
            return IntVal(len(l)) if l is not None else slen(c)
        raise Unsupported('size of %s' % type(c).__name__)

    def deref(self, it, n):
        if isinstance(it, RIter):
            it = Iter(it.ref, simp(it.pos - 1), it.t, it.dom)
        if isinstance(it, (Ptr,)):
            return it.ref
        if not isinstance(it, Iter):
            self.unsup(n, 'dereference of %s' % type(it).__name__)
        c = self.load(self.cur, it.ref)
        c = unfold(c)
        if isinstance(c, MapVal):
            if isinstance(it, FindIter):
                self.oblige(self.cur, 'iterator dereferenceable', 'safety', mkand(it.has, sel(c.dom, it.key)), n)
                return PairView(wrap(it.key, c.kt), it.ref.sub(('k', it.key)))
            if it.dom is not None and not it.dom.eq(c.dom):
                # position-based iterator: the key set must not have changed since it was made
                self.oblige(self.cur, 'iterator used on unchanged key set', 'model', it.dom == c.dom, n)
            self.oblige(self.cur, 'iterator dereferenceable', 'safety', And(it.pos >= 0, it.pos < card(c.dom)), n)
            kx = self.iter_key(c, it)
            return PairView(wrap(kx, c.kt), it.ref.sub(('k', kx)))
        if isinstance(c, VecVal):
            self.oblige(self.cur, 'iterator dereferenceable', 'safety', And(it.pos >= 0, it.pos < c.n), n)
            return it.ref.sub(('i', it.pos))
        if not isinstance(c, Val) and c.sort() == Str:
            return self.str_at(c, it.pos, n)
        self.unsup(n, 'deref')

    def iter_key(self, c, it):
        # rank(dom, k) positions produced by find(): the key is k itself
        p = it.pos
        kf = getattr(it, 'key', None)
        if z3.is_app(p) and p.decl().name().startswith('rank_') and p.arg(0).eq(c.dom):
            return p.arg(1)
        return keyat(c.dom, p)

    def index(self, b, i, t0, n):
        k = t0[0]
        if k == 'vec':
            if isinstance(b, Ref):
                v = unfold(self.load(self.cur, b))
                self.oblige(self.cur, 'vector index in bounds', 'safety', And(i >= 0, i < v.n), n)
                return b.sub(('i', i))
            v = unfold(b)
            self.oblige(self.cur, 'vector index in bounds', 'safety', And(i >= 0, i < v.n), n)
            return wrap(sel(v.a, i), v.et)
        if k == 'map':
            if not isinstance(b, Ref):
                b = self.newvar(self.cur, 'tmpmap', b)
            m = unfold(self.load(self.cur, b))
            if not isinstance(m, MapVal):
                self.unsup(n, 'map index on ' + type(m).__name__)
            if isinstance(i, Val):
                i = pack(i)
            if t0[1][0] == 'real' and z3.is_int(i):
                i = to_real(i)
            has = sb(sel(m.dom, i))
            if not is_true(has):
                known = {e.get_id() for e in self.cur.facts()}
                # a key just read through a position of this very key set is in it
                read = z3.is_app(i) and i.decl().name().startswith('keyat_') and i.arg(0).eq(m.dom) and (
                    And(i.arg(1) >= 0, i.arg(1) < card(m.dom)).get_id() in known or {(i.arg(1) >= 0).get_id(), (i.arg(1) < card(m.dom)).get_id()} <= known)
                if has.get_id() not in known and not read and not S.quick_unsat(self.cur.facts() + [mknot(has)], 0.2):
                    dv = self.map_default(t0[2], n)
                    nv = mkif(has, sel(m.val, i), pack(dv))
                    m = MapVal(Store(m.dom, i, TRUE), Store(m.val, i, nv), m.kt, m.vt)
                    self.store(self.cur, b, m)
            return b.sub(('k', i))
        if k == 'str':
            s = self.rv(self.cur, b)
            if isinstance(b, Ref):
                return StrCh(b, i) if n.get('valueCategory') == 'lvalue' and False else self.str_at(s, i, n)
            return self.str_at(s, i, n)
        if k == 'arr':
            v = unfold(self.load(self.cur, b))
            self.oblige(self.cur, 'array index in bounds', 'safety', And(i >= 0, i < v.n), n)
            return b.sub(('i', i))
        self.unsup(n, 'operator[] on %r' % (t0,))

    def map_default(self, vt, n):
        if vt[0] == 'struct':
            node = self.find_ctor(vt[1], 'void ()')
            if node is None:
                self.unsup(n, 'default construction of ' + vt[1])
            obj = self.newvar(self.cur, 'dflt', fresh(vt, 'dflt'))
            self.suppress += 0
            self.call_fn(node, obj, [], n, ctor=True)
            return self.load(self.cur, obj)
        return default_value(vt)

    def e_CXXMemberCallExpr(self, n):
        d, base = self.callee_decl(n)
        nm = d['name']
        args = [a for a in n['inner'][1:]]
        bt = self.etype(base)
        if bt[0] == 'ptr':
            bt = bt[1]
        if nm == 'operator<<' and self.is_output(n):
            return Opaque('cout')
        if bt[0] == 'struct':
            tu = self.tu()
            dd = tu.byid.get(d['referencedMemberDecl'])
            if dd is None:
                self.unsup(n, 'unknown method ' + nm)
            m = dd.get('mangledName')
            b = self.ev(base)
            if self.cur is None:
                return Opaque('dead')
            if d.get('isArrow'):
                b = self.rv(self.cur, b)
                if isinstance(b, Ptr):
                    b = b.ref
                elif isinstance(b, Null):
                    self.unsup(n, 'method call on null')
                else:
                    self.unsup(n, 'method call through %s' % type(b).__name__)
            if not isinstance(b, Ref):
                b = self.newvar(self.cur, 'tmp', b)
            node = self.prog.funcs.get(m)
            if node is None:
                node = self.prog.decls.get(m)
            return self.call_fn(node, b, args, n)
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        return self.builtin_method(n, nm, base, bt, args, d)

    def builtin_method(self, n, nm, base, t, args, d):
        b = self.ev(base)
        if self.cur is None:
            return default_value(self.etype(n)) if is_scalar(self.etype(n)) else Opaque('dead')
        if d.get('isArrow'):
            b = self.rv(self.cur, b)
            if isinstance(b, Ptr):
                b = b.ref
        k = t[0]
        if k == 'vec':
            return self.vec_method(n, nm, b, t, args)
        if k == 'map':
            return self.map_method(n, nm, b, t, args)
        if k == 'str':
            return self.str_method(n, nm, b, t, args)
        if k == 'pair':
            if nm == 'operator=':
                v = unfold(self.rvx(args[0]))
                self.store(self.cur, b, v); return b
        if k == 'opaque' or k in ('iter',):
            if nm in ('str', 'what'):
                return fresh(STR, 'strm')
            if nm in ('operator bool', 'fail', 'good', 'eof', 'is_open'):
                return Const('strm!%d' % self._bump(), BoolSort())
            self.trusted.add('stream method %s' % nm)
            rt = self.etype(n)
            vals = [self.ev(a) for a in args]
            if rt[0] == 'void':
                return Opaque('void')
            if is_scalar(rt):
                return fresh(rt, 'strm')
            return Opaque('strm')
        if nm.startswith('operator') :
            return self.rvx(base)
        self.unsup(n, 'method %s on %r' % (nm, t))

    def need_ref(self, b):
        if isinstance(b, Ref):
            return b
        return self.newvar(self.cur, 'tmp', b)

    def vec_slice(self, a, b, n):
        v = unfold(self.load(self.cur, a.ref))
        if not isinstance(v, VecVal):
            self.unsup(n, 'range constructor from map')
        self.oblige(self.cur, 'range within vector', 'safety', And(a.pos >= 0, a.pos <= b.pos, b.pos <= v.n), n)
        if z3.is_int_value(a.pos) and a.pos.as_long() == 0:
            return VecVal(b.pos, v.a, v.et)
        r = fresh(('vec', v.et), 'slice')
        i = Const('sli', IntSort())
        self.cur.assume(r.n == b.pos - a.pos)
        self.cur.assume(ForAll([i], Implies(And(i >= 0, i < r.n), Select(r.a, i) == Select(v.a, i + a.pos)), patterns=[Select(r.a, i)]))
        return r

    def vec_method(self, n, nm, b, t, args):
        cur = self.cur
        v = unfold(self.rv(cur, b))
        et = t[1]
        if not isinstance(v, VecVal):
            self.unsup(n, 'vector method on %s' % type(v).__name__)
        if nm == 'size':
            return v.n
        if nm == 'empty':
            return v.n == 0
        if nm in ('begin', 'cbegin'):
            return Iter(self.need_ref(b), IntVal(0), t)
        if nm in ('end', 'cend'):
            return Iter(self.need_ref(b), v.n, t)
        if nm in ('rbegin', 'crbegin'):
            return RIter(self.need_ref(b), v.n, t)
        if nm in ('rend', 'crend'):
            return RIter(self.need_ref(b), IntVal(0), t)
        if nm in ('push_back', 'emplace_back'):
            if nm == 'emplace_back' and len(args) != 1:
                self.unsup(n, 'emplace_back')
            x = self.coerce(self.rvx(args[0], et), et)
            if self.cur is None:
                return Opaque('dead')
            v = unfold(self.load(self.cur, b))
            self.store(self.cur, b, VecVal(simp(v.n + 1), Store(v.a, v.n, pack(x)), et))
            return Opaque('void')
        if nm == 'pop_back':
            self.oblige(cur, 'pop_back on non-empty vector', 'safety', v.n > 0, n)
            self.store(self.cur, b, VecVal(simp(v.n - 1), v.a, et)); return Opaque('void')
        if nm == 'resize':
            m = self.rvx(args[0])
            if len(args) > 1:
                fill = pack(self.coerce(self.rvx(args[1], et), et))
            elif et[0] == 'struct':
                fill = pack(self.map_default(et, n))
            else:
                fill = pack(default_value(et)) if not is_scalar(et) else default_value(et)
            v = unfold(self.load(self.cur, b))
            if z3.is_int_value(v.n) and v.n.as_long() == 0:
                self.store(self.cur, b, VecVal(m, z3.K(IntSort(), fill), et))
            else:
                i = Const('rsi!%d' % self._bump(), IntSort())
                na = z3.Lambda([i], If(i < v.n, Select(v.a, i), fill))
                self.store(self.cur, b, VecVal(m, na, et))
                if self.opts.get('nolambda', True):
                    fa = fresh(('vec', et), 'resized').a
                    self.cur.assume(ForAll([i], Select(fa, i) == If(i < v.n, Select(v.a, i), fill), patterns=[Select(fa, i)]))
                    self.store(self.cur, b, VecVal(m, fa, et))
            return Opaque('void')
        if nm == 'assign':
            x = self.rvx(args[0]); y = self.rvx(args[1])
            if isinstance(x, Iter):
                self.store(self.cur, b, self.vec_slice(x, y, n))
            else:
                self.store(self.cur, b, VecVal(x, z3.K(IntSort(), pack(self.coerce(y, et))), et))
            return Opaque('void')
        if nm == 'reserve' or nm == 'shrink_to_fit':
            for a in args:
                self.rvx(a)
            return Opaque('void')
        if nm == 'clear':
            self.store(cur, b, VecVal(IntVal(0), v.a, et))
            return Opaque('void')
        if nm in ('back', 'front', 'at'):
            if nm == 'at':
                i = self.rvx(args[0])
                ok = And(i >= 0, i < v.n)
                self.throw_if(mknot(ok), 'std::out_of_range', n)
                if self.cur is None:
                    return Opaque('dead')
            else:
                self.oblige(cur, nm + ' of non-empty vector', 'safety', v.n > 0, n)
                i = IntVal(0) if nm == 'front' else simp(v.n - 1)
            if isinstance(b, Ref):
                return b.sub(('i', i))
            return wrap(sel(v.a, i), et)
        if nm == 'swap':
            o = self.ev(args[0])
            w = self.load(self.cur, o)
            self.store(self.cur, b, w); self.store(self.cur, o, v)
            return Opaque('void')
        if nm == 'operator=':
            self.store(self.cur, b, self.rvx(args[0])); return b
        if nm in ('erase', 'insert'):
            it = self.rvx(args[0])
            if nm == 'insert' and len(args) == 3:
                a1 = self.rvx(args[1]); a2 = self.rvx(args[2])
                v = unfold(self.load(self.cur, b))
                if isinstance(a1, Iter) and it.pos.eq(v.n):
                    w = unfold(self.load(self.cur, a1.ref))
                    self.oblige(self.cur, 'range within vector', 'safety', And(a1.pos >= 0, a1.pos <= a2.pos, a2.pos <= w.n), n)
                    r = fresh(('vec', et), 'ins')
                    i = Const('insi', IntSort())
                    self.cur.assume(r.n == v.n + a2.pos - a1.pos)
                    self.cur.assume(ForAll([i], Select(r.a, i) == If(i < v.n, Select(v.a, i), Select(w.a, i - v.n + a1.pos)), patterns=[Select(r.a, i)]))
                    self.store(self.cur, b, r)
                    return Iter(b, it.pos, t)
            r = fresh(('vec', et), nm)
            i = Const('eri', IntSort())
            if nm == 'erase':
                j = it.pos
                cnt = IntVal(1)
                if len(args) > 1:
                    cnt = simp(self.rvx(args[1]).pos - j)
                self.oblige(self.cur, 'erase within vector', 'safety', And(j >= 0, cnt >= 0, j + cnt <= v.n), n)
                self.cur.assume(r.n == v.n - cnt)
                self.cur.assume(ForAll([i], Select(r.a, i) == If(i < j, Select(v.a, i), Select(v.a, i + cnt)), patterns=[Select(r.a, i)]))
            else:
                if len(args) != 2:
                    self.unsup(n, 'vector insert form')
                x = pack(self.coerce(self.rvx(args[1]), et))
                j = it.pos
                self.oblige(self.cur, 'insert within vector', 'safety', And(j >= 0, j <= v.n), n)
                self.cur.assume(r.n == v.n + 1)
                self.cur.assume(ForAll([i], Select(r.a, i) == If(i < j, Select(v.a, i), If(i == j, x, Select(v.a, i - 1))), patterns=[Select(r.a, i)]))
            self.store(self.cur, b, r)
            return Iter(b, it.pos, t)
        self.unsup(n, 'vector::' + nm)

    def map_method(self, n, nm, b, t, args):
        cur = self.cur
        m = unfold(self.rv(cur, b))
        if not isinstance(m, MapVal):
            self.unsup(n, 'map method on ' + type(m).__name__)
        def key(a):
            k = self.rvx(a)
            if isinstance(k, Val):
                return pack(k)
            if t[1][0] == 'real' and z3.is_int(k):
                k = to_real(k)
            return k
        if nm == 'size':
            return self.size_of(m)
        if nm == 'empty':
            return self.size_of(m) == 0
        if nm in ('begin', 'cbegin'):
            return Iter(self.need_ref(b), IntVal(0), t, m.dom)
        if nm in ('end', 'cend'):
            return Iter(self.need_ref(b), self.size_of(m), t, m.dom)
        if nm in ('rbegin', 'crbegin'):
            return RIter(self.need_ref(b), self.size_of(m), t, m.dom)
        if nm in ('rend', 'crend'):
            return RIter(self.need_ref(b), IntVal(0), t, m.dom)
        if nm in ('find', 'count'):
            k = key(args[0])
            has = sb(sel(m.dom, k))
            if nm == 'count':
                return mkif(has, IntVal(1), IntVal(0))
            r = self.need_ref(b)
            pos = mkif(has, rank(m.dom, k), self.size_of(m))
            it = FindIter(r, pos, t, k, has)
            # card/rank facts: present => 0<=rank<card
            self.cur.assume(mkor(mknot(has), mkand(rank(m.dom, k) >= 0, rank(m.dom, k) < self.size_of(m))))
            return it
        if nm in ('lower_bound', 'upper_bound'):
            k = key(args[0])
            return self.bound_iter(self.need_ref(b), m, k, nm, t, n)
        if nm == 'clear':
            self.store(cur, b, MapVal(z3.K(m.dom.sort().domain(), FALSE), m.val, m.kt, m.vt))
            return Opaque('void')
        if nm == 'erase':
            a = self.rvx(args[0])
            if isinstance(a, Iter):
                k = self.iter_key2(m, a)
                self.oblige(self.cur, 'erase of valid iterator', 'safety', And(a.pos >= 0, a.pos < self.size_of(m)), n)
            else:
                k = pack(a) if isinstance(a, Val) else a
            self.store(self.cur, b, MapVal(Store(m.dom, k, FALSE), m.val, m.kt, m.vt))
            return Opaque('void')
        if nm in ('insert', 'emplace'):
            if nm == 'insert' and len(args) == 1:
                p = unfold(self.rvx(args[0]))
                if isinstance(p, PairView):
                    kx, vx = p.first, self.rv(self.cur, p.second)
                else:
                    kx, vx = p.f['first'], p.f['second']
            elif nm == 'emplace' and len(args) == 2:
                kx = self.rvx(args[0]); vx = self.rvx(args[1])
            else:
                self.unsup(n, 'map insert form')
            kx = pack(kx) if isinstance(kx, Val) else kx
            vx = self.coerce(vx, t[2])
            m = unfold(self.load(self.cur, b))
            has = sel(m.dom, kx)
            self.store(self.cur, b, MapVal(Store(m.dom, kx, TRUE), Store(m.val, kx, mkif(has, sel(m.val, kx), pack(vx))), m.kt, m.vt))
            return Opaque('void')
        if nm == 'at':
            k = key(args[0])
            self.throw_if(mknot(sel(m.dom, k)), 'std::out_of_range', n)
            if self.cur is None:
                return Opaque('dead')
            if isinstance(b, Ref):
                return b.sub(('k', k))
            return wrap(sel(m.val, k), t[2])
        if nm == 'operator=':
            self.store(self.cur, b, self.rvx(args[0])); return b
        if nm == 'swap':
            o = self.ev(args[0])
            w = self.load(self.cur, o)
            self.store(self.cur, b, w); self.store(self.cur, o, m)
            return Opaque('void')
        self.unsup(n, 'map::' + nm)

    def iter_key2(self, m, it):
        if isinstance(it, FindIter):
            return it.key
        return self.iter_key(m, it)

    def bound_iter(self, r, m, k, nm, t, n):
        p = fresh(INT, nm)
        c = card(m.dom)
        st = self.cur
        st.assume(And(p >= 0, p <= c))
        i = Const('bi', IntSort())
        if k.sort() == Str:
            lt = lambda x, y: slt(x, y)
        else:
            lt = lambda x, y: x < y
        if nm == 'lower_bound':
            st.assume(ForAll([i], Implies(And(0 <= i, i < p), lt(keyat(m.dom, i), k)), patterns=[keyat(m.dom, i)]))
            st.assume(ForAll([i], Implies(And(p <= i, i < c), Not(lt(keyat(m.dom, i), k))), patterns=[keyat(m.dom, i)]))
            st.assume(Implies(p < c, Not(lt(keyat(m.dom, p), k))))
            st.assume(Implies(p > 0, lt(keyat(m.dom, p - 1), k)))
        else:
            st.assume(ForAll([i], Implies(And(0 <= i, i < p), Not(lt(k, keyat(m.dom, i)))), patterns=[keyat(m.dom, i)]))
            st.assume(ForAll([i], Implies(And(p <= i, i < c), lt(k, keyat(m.dom, i))), patterns=[keyat(m.dom, i)]))
            st.assume(Implies(p < c, lt(k, keyat(m.dom, p))))
            st.assume(Implies(p > 0, Not(lt(k, keyat(m.dom, p - 1)))))
        return Iter(r, p, t, m.dom)

    def str_method(self, n, nm, b, t, args):
        s = self.rv(self.cur, b)
        l = litval(s)
        if nm in ('size', 'length'):
            return IntVal(len(l)) if l is not None else slen(s)
        if nm == 'empty':
            return BoolVal(len(l) == 0) if l is not None else slen(s) == 0
        if nm in ('c_str', 'data'):
            return s
        if nm == 'substr':
            a = [self.rvx(x) for x in args]
            i = a[0] if a else IntVal(0)
            self.throw_if(sb(Not(And(i >= 0, i <= (IntVal(len(l)) if l is not None else slen(s))))), 'std::out_of_range', n)
            if self.cur is None:
                return strlit('')
            if l is not None and all(z3.is_int_value(simp(x)) for x in a):
                iv = [simp(x).as_long() for x in a]
                return strlit(l[iv[0]:iv[0] + iv[1]] if len(iv) > 1 else l[iv[0]:])
            cnt = a[1] if len(a) > 1 else IntVal(2 ** 64 - 1)
            return ssub(s, i, cnt)
        if nm in ('begin', 'cbegin'):
            return Iter(self.need_ref(b), IntVal(0), t)
        if nm in ('end', 'cend'):
            return Iter(self.need_ref(b), slen(s), t)
        if nm in ('rbegin', 'crbegin'):
            return RIter(self.need_ref(b), slen(s), t)
        if nm in ('rend', 'crend'):
            return RIter(self.need_ref(b), IntVal(0), t)
        if nm == 'at':
            i = self.rvx(args[0])
            self.throw_if(Not(And(i >= 0, i < slen(s))), 'std::out_of_range', n)
            return schar(s, i)
        if nm == 'find' :
            a = [self.rvx(x) for x in args]
            return sfind(s, self.tostr(a[0]), a[1] if len(a) > 1 else IntVal(0))
        if nm == 'compare':
            y = self.rvx(args[0])
            return If(_lit_eq(s, y), IntVal(0), If(slt(s, y), IntVal(-1), IntVal(1)))
        if nm in ('push_back', 'append', 'operator+='):
            y = self.rvx(args[0])
            self.store(self.cur, b, self.scat(s, self.tostr(y)))
            return b
        if nm in ('operator=', 'assign'):
            y = self.rvx(args[0])
            self.store(self.cur, b, self.tostr(y)); return b
        if nm == 'clear':
            self.store(self.cur, b, strlit('')); return Opaque('void')
        self.unsup(n, 'string::' + nm)

    def throw_if(self, c, exc, n):
        c = sb(c)
        if is_false(c):
            return
        st = self.cur
        if is_true(c):
            self.throws.append(Throw(st, exc, self.loc(n), self.cur_fn())); self.cur = None
            return
        t = st.fork(); t.assume(c, 'b')
        self.throws.append(Throw(t, exc, self.loc(n), self.cur_fn()))
        st.assume(mknot(c), 'b')

    # free functions ---------------------------------------------------------
    def e_CallExpr(self, n):
        d, base = self.callee_decl(n)
        nm = d['name']
        if base is not None:
            # static member called through an object
            tu = self.tu()
            dd = tu.byid.get(d.get('referencedMemberDecl'))
            if dd is not None and dd.get('mangledName') in self.prog.decls:
                node = self.prog.funcs.get(dd['mangledName'], dd)
                return self.call_fn(node, None, n['inner'][1:], n)
        tu = self.tu()
        dd = tu.byid.get(d.get('id'))
        if dd is not None and dd.get('mangledName') in self.prog.decls:
            node = self.prog.funcs.get(dd['mangledName'])
            if node is None:
                node = self.prog.decls[dd['mangledName']]
            return self.call_fn(node, None, n['inner'][1:], n)
        args = [a for a in n['inner'][1:] if a['kind'] != 'CXXDefaultArgExpr']
        return self.libcall(n, nm, args)

    def libcall(self, n, nm, args):
        un = {'exp': S.fexp, 'log': S.flog, 'sqrt': S.fsqrt, 'sin': S.fsin, 'cos': S.fcos, 'acos': S.facos, 'erf': S.ferf}
        if nm in un:
            x = self.coerce(self.rvx(args[0], REAL), REAL)
            if self.cur is None:
                return RealVal(0)
            if nm == 'acos' and z3.is_rational_value(x) and x.numerator_as_long() == -x.denominator_as_long():
                return PI
            if nm == 'acos' and z3.is_rational_value(x) and x.numerator_as_long() == 0:
                return PI / 2
            if nm == 'exp' and z3.is_rational_value(x) and x.numerator_as_long() == 0:
                return RealVal(1)
            if nm == 'log' and self.opts.get('logdom', True):
                self.oblige(self.cur, 'log of a positive number', 'safety', x > 0, n)
            if nm == 'sqrt' and self.opts.get('logdom', True):
                self.oblige(self.cur, 'sqrt of a non-negative number', 'safety', x >= 0, n)
            self.trusted.add('libm %s (uninterpreted + basic axioms)' % nm)
            return un[nm](x)
        if nm in ('fabs', 'abs'):
            x = self.rvx(args[0])
            return If(x >= 0, x, -x)
        if nm == 'pow':
            x = self.coerce(self.rvx(args[0]), REAL); y = self.coerce(self.rvx(args[1]), REAL)
            if z3.is_rational_value(y) and y.denominator_as_long() == 1 and 0 <= y.numerator_as_long() <= 8:
                r = RealVal(1)
                for _ in range(y.numerator_as_long()):
                    r = r * x
                return simp(r) if z3.is_rational_value(x) else r
            if z3.is_rational_value(y) and y.numerator_as_long() == 1 and y.denominator_as_long() == 2:
                return S.fsqrt(x)
            return S.fpow(x, y)
        if nm in ('max', 'min'):
            x = self.rvx(args[0]); y = self.rvx(args[1])
            return If(x < y, y, x) if nm == 'max' else If(y < x, y, x)
        if nm == 'move' or nm == 'forward':
            return self.ev(args[0])
        if nm == 'make_pair':
            a = self.rvx(args[0]); b = self.rvx(args[1])
            t = self.etype(n)
            return StructVal(t, {'first': a, 'second': b})
        if nm == 'endl':
            return Opaque('cout')
        if nm in ('getline',):
            self.ev(args[0])
            tgt = self.ev(args[1])
            self.store(self.cur, tgt, fresh(STR, 'line'))
            return Opaque('stream')
        if nm in ('isdigit', 'islower', 'isupper', 'isspace', 'isalpha'):
            c = self.rvx(args[0])
            rng = {'isdigit': [(48, 57)], 'islower': [(97, 122)], 'isupper': [(65, 90)], 'isspace': [(9, 13), (32, 32)], 'isalpha': [(65, 90), (97, 122)]}[nm]
            return If(Or(*[And(c >= a, c <= b) for a, b in rng]), IntVal(1), IntVal(0))
        if nm in ('toupper', 'tolower'):
            c = self.rvx(args[0])
            if nm == 'toupper':
                return If(And(c >= 97, c <= 122), c - 32, c)
            return If(And(c >= 65, c <= 90), c + 32, c)
        if nm == 'swap':
            a = self.ev(args[0]); b = self.ev(args[1])
            va = self.load(self.cur, a); vb = self.load(self.cur, b)
            self.store(self.cur, a, vb); self.store(self.cur, b, va)
            return Opaque('void')
        if nm in ('isfinite',):
            return TRUE
        if nm in ('isnan', 'isinf'):
            return FALSE
        if nm in ('accumulate',):
            return self.lib_accumulate(n, args)
        if nm in ('sort', 'stable_sort'):
            return self.lib_sort(n, args)
        if nm in ('lower_bound', 'upper_bound'):
            return self.lib_bound(n, nm, args)
        if nm == 'fill':
            a = self.rvx(args[0]); b = self.rvx(args[1]); x = self.rvx(args[2])
            if isinstance(a, CArr):
                a = Iter(a.ref, a.off, None); b = Iter(b.ref, b.off, None)
            v = unfold(self.load(self.cur, a.ref))
            x = pack(self.coerce(x, v.et))
            self.oblige(self.cur, 'range within vector', 'safety', And(a.pos >= 0, a.pos <= b.pos, b.pos <= v.n), n)
            if a.pos.eq(IntVal(0)) and b.pos.eq(v.n):
                self.store(self.cur, a.ref, VecVal(v.n, z3.K(IntSort(), x), v.et))
            else:
                fa = fresh(('vec', v.et), 'fill').a
                i = Const('fli', IntSort())
                self.cur.assume(ForAll([i], Select(fa, i) == If(And(i >= a.pos, i < b.pos), x, Select(v.a, i)), patterns=[Select(fa, i)]))
                self.store(self.cur, a.ref, VecVal(v.n, fa, v.et))
            return Opaque('void')
        if nm == 'distance':
            a = self.rvx(args[0]); b = self.rvx(args[1])
            return simp(b.pos - a.pos)
        if nm in ('find', 'binary_search', 'equal', 'unique', 'count'):
            return self.lib_search(n, nm, args)
        if nm in ('begin', 'end'):
            b = self.ev(args[0])
            c = self.load(self.cur, b)
            return Iter(b, IntVal(0) if nm == 'begin' else self.size_of(c), self.etype(args[0]))
        if nm == 'getenv' or nm == 'strtod' or nm == 'tolower' or nm == 'setw' or nm == 'setfill':
            for a in args:
                self.ev(a)
            rt = self.etype(n)
            return fresh(rt, nm) if is_scalar(rt) else Opaque(nm)
        if nm == 'to_string':
            self.rvx(args[0]); return fresh(STR, 'to_string')
        self.unsup(n, 'library function ' + nm)

    def lib_accumulate(self, n, args):
        a = self.rvx(args[0]); b = self.rvx(args[1]); x = self.rvx(args[2])
        v = unfold(self.load(self.cur, a.ref))
        if not isinstance(v, VecVal) or len(args) > 3:
            self.unsup(n, 'accumulate')
        from spec import SumV
        if z3.is_int(x):
            self.unsup(n, 'integer accumulate over doubles')
        return x + SumV(v.a, b.pos) - SumV(v.a, a.pos)

    def lib_sort(self, n, args):
        a = self.rvx(args[0]); b = self.rvx(args[1])
        v = unfold(self.load(self.cur, a.ref))
        self.oblige(self.cur, 'range within vector', 'safety', And(a.pos >= 0, a.pos <= b.pos, b.pos <= v.n), n)
        if not (a.pos.eq(IntVal(0)) and b.pos.eq(v.n)):
            self.unsup(n, 'partial sort')
        r = fresh(('vec', v.et), 'sorted')
        i = Const('so_i', IntSort()); j = Const('so_j', IntSort())
        st = self.cur
        st.assume(r.n == v.n)
        # permutation: an index bijection
        V._fresh[0] += 1
        perm = Function('perm!%d' % V._fresh[0], IntSort(), IntSort())
        inv = Function('perminv!%d' % V._fresh[0], IntSort(), IntSort())
        st.assume(ForAll([i], Implies(And(0 <= i, i < v.n), And(0 <= perm(i), perm(i) < v.n, inv(perm(i)) == i, Select(r.a, i) == Select(v.a, perm(i)))), patterns=[Select(r.a, i)]))
        st.assume(ForAll([i], Implies(And(0 <= i, i < v.n), And(0 <= inv(i), inv(i) < v.n, perm(inv(i)) == i, Select(r.a, inv(i)) == Select(v.a, i))), patterns=[inv(i)]))
        self.cur.env['$sorts'] = GhostSort((v, r, perm, inv))
        # ordered by the comparison
        lt = None
        if len(args) > 2:
            ct = self.etype(args[2])
            if ct[0] == 'struct':
                m = [mm for mm in self.prog.by_qual.get(ct[1] + '::operator()', []) if mm in self.prog.funcs]
                cmpo = self.rvx(args[2])
                lt = lambda x, y: self.pure_call(self.prog.funcs[m[0]], self.newvar(self.cur, 'cmp', cmpo), [x, y])
            else:
                self.unsup(n, 'sort comparator')
        elif v.et[0] in ('real', 'int'):
            lt = lambda x, y: x < y
        elif v.et[0] == 'str':
            lt = lambda x, y: slt(x, y)
        elif v.et[0] == 'struct':
            ms = [mm for mm in self.prog.by_qual.get(v.et[1] + '::operator<', []) + self.prog.by_qual.get('fisx::operator<', []) if mm in self.prog.funcs]
            if not ms:
                self.unsup(n, 'no operator< for sort')
            nd = self.prog.funcs[ms[0]]
            if nd['kind'] == 'CXXMethodDecl' and len([c for c in nd['inner'] if c['kind'] == 'ParmVarDecl']) == 1:
                lt = lambda x, y: self.pure_call(nd, self.newvar(self.cur, 'cmpx', wrap(x, v.et)), [y])
            else:
                lt = lambda x, y: self.pure_call(nd, None, [x, y])
        else:
            self.unsup(n, 'sort element type')
        x = Const('sx!%d' % self._bump(), sort_of(v.et)); y = Const('sy!%d' % self._bump(), sort_of(v.et))
        body = lt(x, y)
        self.cur.assume(ForAll([i, j], Implies(And(0 <= i, i < j, j < r.n), Not(substitute(body, (x, Select(r.a, j)), (y, Select(r.a, i))))), patterns=[MultiPattern(Select(r.a, i), Select(r.a, j))]))
        from spec import SUMS
        for fn in SUMS.get(sort_of(v.et).name(), []):
            self.cur.assume(fn(r.a, r.n) == fn(v.a, v.n))     # sums are invariant under permutation
        self.store(self.cur, a.ref, r)
        self.trusted.add('std::sort (assumed contract: sorted permutation)')
        return Opaque('void')

    def pure_call(self, node, thisref, vals):
        """evaluate a comparison function symbolically on the given element terms"""
        ps = [c for c in node['inner'] if c['kind'] == 'ParmVarDecl']
        st = self.cur
        keep = st.fork()
        refs = []
        for p, x in zip(ps, vals):
            t = parse_type(p['type'].get('desugaredQualType', p['type']['qualType']))
            refs.append(self.newvar(self.cur, 'cmp_' + p.get('name', 'p'), wrap(x, t)))
        self.suppress += 1
        try:
            r = self.inline(node, thisref, refs, node)
        finally:
            self.suppress -= 1
        r = self.rv(self.cur, r)
        self.cur = keep
        return self.tobool(r)

    def lib_bound(self, n, nm, args):
        a = self.rvx(args[0]); b = self.rvx(args[1]); x = self.rvx(args[2])
        v = unfold(self.load(self.cur, a.ref))
        if len(args) > 3 or not isinstance(v, VecVal) or not is_scalar(v.et):
            self.unsup(n, nm)
        x = self.coerce(x, v.et)
        p = fresh(INT, nm)
        st = self.cur
        self.oblige(st, 'range within vector', 'safety', And(a.pos >= 0, a.pos <= b.pos, b.pos <= v.n), n)
        st.assume(And(p >= a.pos, p <= b.pos))
        i = Const('lbi', IntSort()); j = Const('lbj', IntSort())
        # precondition of the standard: the range is sorted
        if self.opts.get('sorted_pre', True):
            self.oblige(st, 'std::%s requires a sorted range' % nm, 'precondition',
                        ForAll([i, j], Implies(And(a.pos <= i, i < j, j < b.pos), Select(v.a, i) <= Select(v.a, j))), n)
        if nm == 'lower_bound':
            st.assume(ForAll([i], Implies(And(a.pos <= i, i < p), Select(v.a, i) < x), patterns=[Select(v.a, i)]))
            st.assume(ForAll([i], Implies(And(p <= i, i < b.pos), Select(v.a, i) >= x), patterns=[Select(v.a, i)]))
            st.assume(Implies(p < b.pos, sel(v.a, p) >= x)); st.assume(Implies(p > a.pos, sel(v.a, simp(p - 1)) < x))
        else:
            st.assume(ForAll([i], Implies(And(a.pos <= i, i < p), Select(v.a, i) <= x), patterns=[Select(v.a, i)]))
            st.assume(ForAll([i], Implies(And(p <= i, i < b.pos), Select(v.a, i) > x), patterns=[Select(v.a, i)]))
            st.assume(Implies(p < b.pos, sel(v.a, p) > x)); st.assume(Implies(p > a.pos, sel(v.a, simp(p - 1)) <= x))
        self.trusted.add('std::%s (assumed contract)' % nm)
        return Iter(a.ref, p, a.t)

    def lib_search(self, n, nm, args):
        a = self.rvx(args[0]); b = self.rvx(args[1])
        if isinstance(a, CArr):
            a = Iter(a.ref, a.off, None)
        if isinstance(b, CArr):
            b = Iter(b.ref, b.off, None)
        v = self.load(self.cur, a.ref)
        v = unfold(v)
        st = self.cur
        i = Const('fi', IntSort())
        if nm == 'equal' and isinstance(a, RIter) and isinstance(v, z3.ExprRef) and v.sort() == Str and len(args) == 3:
            # compared from the end: does the second string end like the first
            c = self.rvx(args[2])
            w = self.load(st, c.ref)
            if isinstance(b, RIter) and isinstance(c, RIter) and z3.is_int_value(b.pos) and b.pos.as_long() == 0 and same_ref(a.ref, b.ref) and a.pos.eq(slen(v)) and c.pos.eq(slen(w)):
                self.oblige(st, 'second range long enough', 'safety', slen(w) >= slen(v), n)
                return ssub(w, slen(w) - slen(v), slen(v)) == v
            self.unsup(n, 'std::equal on reverse string ranges of this form')
        if nm == 'find' and isinstance(v, VecVal) and is_scalar(v.et):
            x = self.coerce(self.rvx(args[2]), v.et)
            p = fresh(INT, 'find')
            st.assume(And(p >= a.pos, p <= b.pos))
            st.assume(ForAll([i], Implies(And(a.pos <= i, i < p), Select(v.a, i) != x), patterns=[Select(v.a, i)]))
            st.assume(Implies(p < b.pos, Select(v.a, p) == x))
            return Iter(a.ref, p, a.t)
        if nm == 'binary_search' and isinstance(v, VecVal) and is_scalar(v.et):
            x = self.coerce(self.rvx(args[2]), v.et)
            r = Const('bsearch!%d' % self._bump(), BoolSort())
            w = fresh(INT, 'bsw')
            st.assume(Implies(r, And(w >= a.pos, w < b.pos, Select(v.a, w) == x)))
            st.assume(Implies(Not(r), ForAll([i], Implies(And(a.pos <= i, i < b.pos), Select(v.a, i) != x), patterns=[Select(v.a, i)])))
            return r
        if nm == 'equal' and isinstance(v, VecVal):
            c = self.rvx(args[2])
            w = unfold(self.load(st, c.ref))
            r = Const('equal!%d' % self._bump(), BoolSort())
            k = fresh(INT, 'eqw')
            st.assume(Implies(r, ForAll([i], Implies(And(a.pos <= i, i < b.pos), Select(v.a, i) == Select(w.a, i - a.pos + c.pos)), patterns=[Select(v.a, i)])))
            st.assume(Implies(Not(r), And(a.pos <= k, k < b.pos, Select(v.a, k) != Select(w.a, k - a.pos + c.pos))))
            self.oblige(st, 'second range long enough', 'safety', c.pos + b.pos - a.pos <= w.n, n)
            return r
        self.unsup(n, 'std::' + nm)

    # user functions ------------------------------------------------------
    def default_arg(self, node, i, n):
        """clang's JSON does not print default arguments at the call; take them from the declarations"""
        m = node.get('mangledName')
        for q in (self.prog.decls.get(m), node):
            if q is None:
                continue
            ps = [c for c in q.get('inner', []) if c['kind'] == 'ParmVarDecl']
            if i < len(ps) and 'init' in ps[i]:
                return ps[i]['inner'][0], q
        for f in self.prog.all_decls(m) if hasattr(self.prog, 'all_decls') else []:
            ps = [c for c in f.get('inner', []) if c['kind'] == 'ParmVarDecl']
            if i < len(ps) and 'init' in ps[i]:
                return ps[i]['inner'][0], f
        self.unsup(n, 'default argument %d of %s' % (i, node.get('name')))

    def call_fn(self, node, thisref, args, n, ctor=False):
        """args: AST nodes.  Evaluate them, then use the contract or inline."""
        ps = [c for c in node.get('inner', []) if c['kind'] == 'ParmVarDecl']
        vals = []
        for i, a in enumerate(args):
            p = ps[i]
            pt = p['type'].get('desugaredQualType', p['type']['qualType'])
            if a['kind'] == 'CXXDefaultArgExpr':
                a, q = self.default_arg(node, i, n)
                fr = dict(self.frames[-1]); fr['tu'] = q['_tu']
                self.frames.append(fr)
                try:
                    v = self.ev(a)
                finally:
                    self.frames.pop()
            else:
                v = self.ev(a)
            if self.cur is None:
                return default_value(self.etype(n)) if 'type' in n and is_scalar(self.etype(n)) else Opaque('dead')
            if pt.strip().endswith('&'):
                if not isinstance(v, Ref):
                    v = self.newvar(self.cur, 'arg', self.coerce(v, parse_type(pt)))
            else:
                v = self.rv(self.cur, v)
                v = self.coerce(v, parse_type(pt))
                if not isinstance(v, Ref):
                    v = self.newvar(self.cur, 'arg', v)
            vals.append(v)
        m = node.get('mangledName')
        c = self.contracts.get(m)
        if c is not None and not c.trusted and thisref is not None and c.modifies and any(isinstance(v, Ref) and v.root == thisref.root and all(same_acc(x, y) for x, y in zip(v.path, thisref.path)) for v in vals):
            c = None        # an argument aliases the object that is modified: the contract does not speak about that
        if c is not None and not c.inline and not (self.top is not None and m in self.top.force_inline):
            self.called.add(c.name)
            return c.apply(self, thisref, vals, n, node)
        return self.inline(node, thisref, vals, n, ctor)

    def inline(self, node, thisref, vals, n, ctor=False):
        body = [c for c in node.get('inner', []) if c['kind'] == 'CompoundStmt']
        m = node.get('mangledName')
        if not body:
            self.unsup(n, 'call of %s without body or contract' % node.get('name'))
        if sum(1 for f in self.frames if f.get('m') == m) >= 2:
            self.unsup(n, 'recursive call of %s without contract' % node.get('name'))
        if len(self.frames) > 12:
            self.unsup(n, 'inlining too deep')
        self.inlined.add(self.prog.qual.get(m, node.get('name')))
        ps = [c for c in node.get('inner', []) if c['kind'] == 'ParmVarDecl']
        self.nframe += 1
        fid = self.nframe
        rt = node['type']['qualType']
        ret = ret_type(rt)
        f = dict(id=fid, vars={}, refs={}, this=thisref, tu=node['_tu'], name=self.prog.qual.get(m, node.get('name')), m=m,
                 retref=ret.strip().endswith('&'), rett=parse_type(ret) if ret != 'void' else VOID)
        for p, v in zip(ps, vals):
            pt = p['type'].get('desugaredQualType', p['type']['qualType'])
            if pt.strip().endswith('&'):
                f['refs'][p['id']] = v
            else:
                key = '%s#%d' % (p.get('name', 'p'), fid)
                self.cur.env[key] = self.rv(self.cur, v) if isinstance(v, Ref) else v
                f['vars'][p['id']] = key
        self.frames.append(f)
        try:
            st = self.cur
            base = len(st.pc)
            out = Outcome()
            if node['kind'] == 'CXXConstructorDecl':
                st = self.ctor_inits(st, node, thisref)
            st2 = self.stmt(st, body[0], out) if st is not None else None
            rets = [s for s, _ in out.ret]
            sts = ([st2] if st2 is not None else []) + rets
        finally:
            self.frames.pop()
        if not sts:
            self.cur = None
            return Opaque('dead')
        if len(sts) == 1:
            self.cur = sts[0]
            return self.cur.env.pop('$ret%d' % fid, Opaque('void'))
        # return values
        rv = [s.env.get('$ret%d' % fid) for s in sts]
        mg = self.merge(sts, [None] * len(sts), base)
        self.cur = mg
        r = mg.env.pop('$ret%d' % fid, Opaque('void'))
        if isinstance(r, Undef) and f['retref']:
            # references to different lvalues: return merged value (read-only use)
            vals2 = [self.rv(s, v) for s, v in zip(sts, rv)]
            v = vals2[-1]
            for s, x in zip(reversed(sts[:-1]), reversed(vals2[:-1])):
                v = ite_val(mkand(*[e for k, e in s.pc[base:] if k == 'b']), x, v)
            return v
        return r

    def ctor_inits(self, st, node, thisref):
        self.cur = st
        for c in node.get('inner', []):
            if c['kind'] != 'CXXCtorInitializer':
                continue
            if 'anyInit' in c:
                fn = c['anyInit']['name']
                t = parse_type(c['anyInit']['type'].get('desugaredQualType', c['anyInit']['type']['qualType']))
                x = c['inner'][0]
                v = self.init_array(x, t) if t[0] == 'arr' else self.rvx(x, t)
                if self.cur is None:
                    return None
                self.store(self.cur, thisref.sub(('f', fn)), self.coerce(v, t) if not isinstance(v, Val) else v)
            elif 'baseInit' in c:
                x = self.strip(c['inner'][0])
                bt = parse_type(c['baseInit'].get('desugaredQualType', c['baseInit']['qualType']))
                nd = self.find_ctor(bt[1], x['ctorType']['qualType'])
                if nd is None:
                    self.unsup(c, 'base constructor')
                self.call_fn(nd, thisref, x.get('inner', []), x, ctor=True)
                if self.cur is None:
                    return None
        return self.cur


class PairView(Val):
    """*it for a map iterator: key term + lvalue of the mapped value"""
    __slots__ = ('first', 'second')
    def __init__(self, a, b):
        self.first = a; self.second = b

class FindIter(Iter):
    __slots__ = ('key', 'has')
    def __init__(self, ref, pos, t, key, has):
        Iter.__init__(self, ref, pos, t); self.key = key; self.has = has

def to_real(v):
    if z3.is_int_value(v):
        return RealVal(v.as_long())
    return ToReal(v)

def _unwrap_u(v):
    """(int)(a-b mod 2^64) == a-b"""
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        a, b = v.arg(1), v.arg(2)
        if z3.is_app_of(b, z3.Z3_OP_ADD) and b.num_args() == 2 and z3.is_int_value(b.arg(1)) and b.arg(1).as_long() == 2 ** 64 and b.arg(0).eq(a):
            return a
        s = z3.simplify(b - a)
        if z3.is_int_value(s) and s.as_long() == 2 ** 64:
            return a
    return None

def ret_type(s):
    # "double (const int &) const" -> "double"
    d = 0
    for i, ch in enumerate(s):
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif ch == '(' and d == 0:
            return s[:i].strip()
    return s

def slice_struct(v, t):
    fl = fields_of(t[1])
    return StructVal(t, {n: v.f[n] for (n, _) in fl})

def exc_matches(thrown, handler):
    h = handler.replace('const ', '').replace('&', '').strip()
    if h in ('...', 'std::exception'):
        return True
    return h.split('::')[-1] == thrown.split('::')[-1] or (h.endswith('logic_error') and thrown.split('::')[-1] in ('invalid_argument', 'out_of_range', 'domain_error', 'length_error')) \
        or (h.endswith('runtime_error') and thrown.split('::')[-1] in ('overflow_error', 'range_error', 'ios_base::failure', 'failure'))

def _implied(c, e):
    if c.eq(e):
        return True
    if z3.is_and(c):
        return any(_implied(x, e) for x in c.children())
    return False

def diff(a, b, path, out):
    if a is b:
        return
    if not isinstance(a, Val) and not isinstance(b, Val):
        if not a.eq(b):
            out[path] = True
        return
    if isinstance(a, Packed) and isinstance(b, Packed) and a.e.eq(b.e):
        return
    if isinstance(a, Packed):
        a = unfold(a)
    if isinstance(b, Packed):
        b = unfold(b)
    if isinstance(a, VecVal) and isinstance(b, VecVal):
        if not a.n.eq(b.n):
            out[path + ('.n',)] = True
        if not a.a.eq(b.a):
            out[path + ('.a',)] = True
        return
    if isinstance(a, MapVal) and isinstance(b, MapVal):
        if not a.dom.eq(b.dom):
            out[path + ('.dom',)] = True
        if not a.val.eq(b.val):
            out[path + ('.val',)] = True
        return
    if isinstance(a, StructVal) and isinstance(b, StructVal):
        for f in a.f:
            diff(a.f[f], b.f[f], path + (f,), out)
        return
    if isinstance(a, Iter) and isinstance(b, Iter):
        if same_ref(a.ref, b.ref):
            if not a.pos.eq(b.pos):
                out[path + ('.pos',)] = True
            return
        out[path] = True
        return
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return
    if isinstance(a, Ref) and isinstance(b, Ref) and same_ref(a, b):
        return
    out[path] = True

def havoc_path(v, path, st, hint):
    if not path:
        if isinstance(v, Val):
            if isinstance(v, (Iter, Ref, Ptr, Opaque, Undef, Null, CArr)):
                return Undef('loop-varying ' + hint)
            if isinstance(v, Packed):
                return wrap(FreshConst(v.e.sort(), hint), v.t)
            if isinstance(v, VecVal):
                return fresh(('vec', v.et), hint)
            if isinstance(v, MapVal):
                return fresh(('map', v.kt, v.vt), hint)
            if isinstance(v, StructVal):
                return fresh(v.t, hint)
            return Undef('loop-varying ' + hint)
        return FreshConst(v.sort(), hint)
    p = path[0]
    if isinstance(v, Packed):
        v = unfold(v)
    if p == '.n':
        n = FreshConst(IntSort(), hint)
        st.assume(n >= 0)
        return VecVal(n, v.a, v.et)
    if p == '.a':
        return VecVal(v.n, FreshConst(v.a.sort(), hint), v.et)
    if p == '.dom':
        return MapVal(FreshConst(v.dom.sort(), hint), v.val, v.kt, v.vt)
    if p == '.val':
        return MapVal(v.dom, FreshConst(v.val.sort(), hint), v.kt, v.vt)
    if p == '.pos':
        return Iter(v.ref, FreshConst(IntSort(), hint), v.t, v.dom)
    f = dict(v.f)
    f[p] = havoc_path(v.f[p], path[1:], st, hint)
    return StructVal(v.t, f)

class Handle:
    """a (loop-modified or loop-constant) component of the state, independent of its name"""
    def __init__(self, root, path, kind, t=None):
        self.root = root; self.path = path; self.kind = kind; self.t = t
        self.name = root.split('#')[0] + ''.join('.' + str(p) for p in path)
        self.entry = None
    def __call__(self, st):
        v = st.env[self.root]
        for p in self.path:
            v = unfold(v) if isinstance(v, Packed) else v
            if p == '.pos':
                v = v.pos
            elif p in ('.n',):
                v = v.n
            elif p in ('.a', ):
                v = v.a
            elif p == '.dom':
                v = v.dom
            elif p == '.val':
                v = v.val
            else:
                v = v.f[p]
        return unfold(v) if isinstance(v, Packed) and not hidden(v) else v

class LoopView:
    """what an invariant schema may look at: state components classified by sort, never by name"""
    def __init__(self, ex, entry, h, mods, node):
        self.ex = ex; self.st0 = entry; self.h = h; self.mods = mods; self.node = node
        self.all = []
        self.ctx = ex.topctx if hasattr(ex, 'topctx') else None
        for root, v in entry.env.items():
            if root.startswith('$ret'):
                continue
            self._walk(root, (), v)
        for hd in self.all:
            try:
                hd.entry = hd(entry)
            except Exception:
                hd.entry = None
        # nothing is known about a variable that has no value before the loop
        self.all = [h for h in self.all if not (isinstance(h.entry, z3.ExprRef) and h.entry.get_id() in ex.uninit_ids)]
        modroots = set()
        self.modpaths = set(mods)
    def _walk(self, root, path, v):
        depth = len(path)
        if hidden(v):
            return
        if isinstance(v, Packed):
            v = unfold(v)
        if not isinstance(v, Val):
            s = v.sort()
            k = 'int' if s == IntSort() else 'real' if s == RealSort() else 'bool' if s == BoolSort() else 'str' if s == Str else None
            if k:
                self.all.append(Handle(root, path, k))
        elif isinstance(v, VecVal):
            self.all.append(Handle(root, path, 'vec', v.et))
        elif isinstance(v, MapVal):
            self.all.append(Handle(root, path, 'map', (v.kt, v.vt)))
        elif isinstance(v, Iter):
            self.all.append(Handle(root, path + ('.pos',), 'int'))
        elif isinstance(v, StructVal) and depth < 3:
            for f in v.f:
                self._walk(root, path + (f,), v.f[f])
    def modified(self, hd):
        p = (hd.root,) + hd.path
        return any(m[:len(p)] == p or p[:len(m)] == m for m in self.modpaths)
    def _sel(self, kind, mod, t=None):
        return [h for h in self.all if h.kind == kind and (mod is None or self.modified(h) == mod) and (t is None or h.t == t)]
    def ints(self, mod=True):
        return self._sel('int', mod)
    def reals(self, mod=True):
        return self._sel('real', mod)
    def bools(self, mod=True):
        return self._sel('bool', mod)
    def strs(self, mod=True):
        return self._sel('str', mod)
    def vecs(self, et=None, mod=True):
        return self._sel('vec', mod, et)
    def maps(self, kt=None, vt=None, mod=True):
        return [h for h in self._sel('map', mod) if (kt is None or h.t[0] == kt) and (vt is None or h.t[1] == vt)]

PI = z3.Const('pi', RealSort())
PI_FACTS = [PI > RealVal('3.14159265358979323846'), PI < RealVal('3.14159265358979323847')]
