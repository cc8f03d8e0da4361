import z3
from z3 import And, Or, Not, Implies, If, Select, Store, ForAll, Exists, IntVal, RealVal, BoolVal, Int, Real, Function, IntSort, RealSort, BoolSort, ArraySort, K, Const, FreshConst
from values import *
from spec import *
from contract import Contract
import solver as S
from solver import fexp, flog, fsqrt, fsin, fcos
from exec import PI
INVALID = 'std::invalid_argument'; RUNTIME = 'std::runtime_error'; DOMAIN = 'std::domain_error'; OUTRANGE = 'std::out_of_range'; IOSFAIL = 'std::ios_base::failure'
import itertools

# ---- invariant schemas (independent of variable names) -----------------
def prefix_sums(L):
    """an accumulator equals the sum of the first i entries of some vector"""
    out = []
    for s in L.reals():
        for v in L.vecs(REAL, mod=None):
            for i in L.ints():
                out.append(('%s==Sum(%s,%s)' % (s.name, v.name, i.name), lambda st, s=s, v=v, i=i: s(st) == SumV(v(st).a, i(st))))
    return out

def positive_prefix(L):
    out = []
    for v in L.vecs(REAL, mod=None):
        for i in L.ints():
            out.append(('%s>0 below %s' % (v.name, i.name), lambda st, v=v, i=i: idx(i(st), lambda k: sel(v(st).a, k) > 0)))
    for s in L.reals():
        for i in L.ints():
            out.append(('%s>0 if %s>0' % (s.name, i.name), lambda st, s=s, i=i: Implies(i(st) > 0, s(st) > 0)))
    return out

def nonneg_prefix(L):
    out = []
    for v in L.vecs(REAL, mod=None):
        for i in L.ints():
            out.append(('%s>=0 below %s' % (v.name, i.name), lambda st, v=v, i=i: idx(i(st), lambda k: sel(v(st).a, k) >= 0)))
    return out

def sums_by(fn, et):
    def sch(L):
        out = []
        for s in L.reals():
            for v in L.vecs(et, mod=None):
                for i in L.ints():
                    out.append(('%s==%s(%s,%s)' % (s.name, fn.name(), v.name, i.name), lambda st, s=s, v=v, i=i: s(st) == fn(v(st).a, i(st))))
        return out
    return sch

def untouched_suffix(L):
    """entries at and above the counter still have the value they had before the loop"""
    out = []
    for v in L.vecs(None):
        if v.entry is None:
            continue
        for i in L.ints():
            out.append(('%s untouched from %s' % (v.name, i.name), lambda st, v=v, i=i, e=v.entry: forall(IntSort(), lambda k: (Implies(k >= i(st), Select(v(st).a, k) == Select(e.a, k)), Select(v(st).a, k)))))
    return out

def each_prefix(label, pred, et=None):
    """forall k<i. pred(ctx, element term, entry element term, k)"""
    def sch(L):
        out = []
        for v in L.vecs(et):
            if v.entry is None:
                continue
            for i in L.ints():
                def fn(st, v=v, i=i, e=v.entry):
                    return forall(IntSort(), lambda k: (Implies(And(0 <= k, k < i(st)), pred(L.ctx, Select(v(st).a, k), Select(e.a, k), k)), Select(v(st).a, k)))
                out.append(('%s: %s below %s' % (label, v.name, i.name), fn))
        return out
    return sch

def len_is_counter(L):
    out = []
    for v in L.vecs(None):
        for i in L.ints():
            out.append(('len(%s)==%s' % (v.name, i.name), lambda st, v=v, i=i: v(st).n == i(st)))
    return out

def filled_prefix(label, pred, et=None):
    """vectors built by push_back: forall k<len. pred(ctx, element, k)"""
    def sch(L):
        out = []
        for v in L.vecs(et):
            def fn(st, v=v):
                return forall(IntSort(), lambda k: (Implies(And(0 <= k, k < v(st).n), pred(L.ctx, Select(v(st).a, k), k)), Select(v(st).a, k)))
            out.append(('%s: all of %s' % (label, v.name), fn))
        return out
    return sch

def getter(qual, field, prop, **kw):
    Contract(qual, prop=prop, inline=True, ensures=lambda c: [('returns ' + field, same(c.result, getattr(c.this, field)))], **kw)

def setter(qual, field, prop, **kw):
    Contract(qual, prop=prop, inline=True, modifies=[field], ensures=lambda c: [('stores ' + field, same(getattr(c.this, field), c.arg(0)))], throws=lambda c: [], **kw)
