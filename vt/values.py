"""Types, SMT sorts and symbolic values.

C++ type            SMT model
double/float        Real          (mathematical reals: ASSUMPTION fp-as-real)
int/long/size_t     Int           (mathematical; unsigned subtraction wraps at 2^64)
bool                Bool
std::string         uninterpreted sort Str (+ length/char/concat/substr functions)
std::vector<T>      (n, Array Int T)
std::map<K,V>       (dom: Array K Bool, val: Array K V); in-order enumeration is an
                    uninterpreted function keyat(dom,i), i < card(dom)
class               record of its fields (and of its bases' fields)
"""
import z3
from z3 import (IntSort, RealSort, BoolSort, ArraySort, DeclareSort, Const, IntVal, RealVal, BoolVal,
                And, Or, Not, Implies, If, Select, Store, K, Function, is_true, is_false, simplify)

Str = DeclareSort('Str')
ClockS = DeclareSort('Opaque')

class Unsupported(Exception):
    pass

REAL = ('real',); BOOL = ('bool',); STR = ('str',); VOID = ('void',); CHAR = ('int', True, 8)
INT = ('int', True, 32); LONG = ('int', True, 64); SIZE = ('int', False, 64)

_ints = {'int': (True, 32), 'short': (True, 16), 'long': (True, 64), 'long long': (True, 64), 'char': (True, 8),
         'signed char': (True, 8), 'unsigned char': (False, 8), 'unsigned int': (False, 32), 'unsigned long': (False, 64),
         'unsigned short': (False, 16), 'unsigned long long': (False, 64), 'std::size_t': (False, 64), 'size_t': (False, 64),
         'std::ptrdiff_t': (True, 64), 'unsigned': (False, 32), 'ptrdiff_t': (True, 64)}

RECORDS = {}      # filled from Program.records
SHORT = {}

def set_records(recs):
    RECORDS.clear(); RECORDS.update(recs)
    SHORT.clear()
    _sorts.clear(); _dt.clear()
    for q in recs:
        SHORT[q.split('::')[-1]] = q

def fields_of(cls):
    out = []
    r = RECORDS[cls]
    for b in r['bases']:
        bt = parse_type(b)
        out += fields_of(bt[1])
    for (n, t) in r['fields']:
        out.append((n, parse_type(t)))
    return out

def _split(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out

_tcache = {}
def parse_type(s):
    if s in _tcache:
        return _tcache[s]
    r = _parse(s)
    _tcache[s] = r
    return r

def is_ref_type(s):
    return s.strip().endswith('&')

def _parse(s):
    s = s.strip()
    while True:
        o = s
        for p in ('const ', 'volatile ', 'typename ', 'class ', 'struct ', 'enum '):
            if s.startswith(p):
                s = s[len(p):].strip()
        if s.endswith(' const'):
            s = s[:-6].strip()
        if s.endswith('&'):
            s = s.rstrip('&').strip()
        if s == o:
            break
    if s.endswith(']'):
        b = s.rindex('[')
        # first dimension is the leftmost one
        b = s.index('[')
        dim = s[b + 1:s.index(']')]
        rest = s[:b] + s[s.index(']') + 1:]
        return ('arr', parse_type(rest), int(dim) if dim else None)
    if s.endswith('*'):
        base = s[:-1].strip()
        if base in ('const char', 'char'):
            return STR          # a C string stands for its text (never NULL)
        return ('ptr', parse_type(base))
    if s in ('double', 'float', 'long double'):
        return REAL
    if s == 'bool':
        return BOOL
    if s == 'void':
        return VOID
    if s in _ints:
        sg, b = _ints[s]
        return ('int', sg, b)
    if s in ('std::string', 'string', 'std::basic_string<char>', 'basic_string<char>', '__string_type') or \
       s.startswith('basic_string<char,') or s.startswith('std::basic_string<char,') or s.startswith('std::__cxx11::basic_string<char'):
        return STR
    if s.endswith('size_type'):
        return SIZE
    if '<' in s and s.endswith('>'):
        i = s.index('<')
        head = s[:i].split('::')[-1]
        args = _split(s[i + 1:-1])
        if head == 'vector':
            return ('vec', parse_type(args[0]))
        if head == 'map':
            return ('map', parse_type(args[0]), parse_type(args[1]))
        if head == 'set':
            return ('set', parse_type(args[0]))
        if head == 'pair':
            return ('pair', parse_type(args[0]), parse_type(args[1]))
        if head == '__normal_iterator':
            return ('iter', parse_type(args[1]))
        if head in ('_Rb_tree_const_iterator', '_Rb_tree_iterator'):
            a = parse_type(args[0])
            if a[0] == 'pair':
                return ('iter', ('map', a[1], a[2]))
            return ('iter', ('set', a))
        if head == 'reverse_iterator':
            return ('riter', parse_type(args[0]))
        if head in ('less',):
            return ('opaque', head)
        return ('opaque', s)
    if s.startswith('fisx::') and s in RECORDS:
        return ('struct', s)
    if s in SHORT:
        return ('struct', SHORT[s])
    if 'fisx::' + s in RECORDS:
        return ('struct', 'fisx::' + s)
    if s.endswith('::iterator') or s.endswith('::const_iterator'):
        return ('iter', parse_type(s[:s.rindex('::')]))
    if s.endswith('::value_type'):
        b = parse_type(s[:s.rindex('::')])
        if b[0] == 'vec':
            return b[1]
        if b[0] == 'map':
            return ('pair', b[1], b[2])
    return ('opaque', s)

_sorts = {}
_dt = {}
OPAQUE = set()      # classes treated as abstract values while one function is verified
def set_opaque(names):
    OPAQUE.clear(); OPAQUE.update(names); _sorts.clear()

def tname(t):
    k = t[0]
    if k in ('real', 'bool', 'str'):
        return k
    if k == 'int':
        return 'int'
    if k in ('vec', 'arr'):
        return 'V_' + tname(t[1])
    if k == 'map':
        return 'M_%s_%s' % (tname(t[1]), tname(t[2]))
    if k == 'set':
        return 'S_%s' % tname(t[1])
    if k == 'pair':
        return 'P_%s_%s' % (tname(t[1]), tname(t[2]))
    if k == 'struct':
        return 'C_' + t[1].split('::')[-1]
    return 'O'

def sort_of(t):
    k = t[0]
    if k == 'real':
        return RealSort()
    if k == 'bool':
        return BoolSort()
    if k == 'int':
        return IntSort()
    if k == 'str':
        return Str
    if k in ('opaque', 'ptr', 'iter', 'riter', 'void'):
        return ClockS
    n = tname(t)
    if n in _sorts:
        return _sorts[n]
    if k == 'struct' and t[1] in OPAQUE:
        _sorts[n] = z3.DeclareSort('U_' + n)
        return _sorts[n]
    d = z3.Datatype(n)
    if k in ('vec', 'arr'):
        d.declare('mk_' + n, ('n_' + n, IntSort()), ('a_' + n, ArraySort(IntSort(), sort_of(t[1]))))
    elif k == 'map':
        d.declare('mk_' + n, ('dom_' + n, ArraySort(sort_of(t[1]), BoolSort())), ('val_' + n, ArraySort(sort_of(t[1]), sort_of(t[2]))))
    elif k == 'set':
        d.declare('mk_' + n, ('dom_' + n, ArraySort(sort_of(t[1]), BoolSort())))
    elif k == 'pair':
        d.declare('mk_' + n, ('fst_' + n, sort_of(t[1])), ('snd_' + n, sort_of(t[2])))
    elif k == 'struct':
        d.declare('mk_' + n, *[('%s_%s' % (f, n), sort_of(ft)) for (f, ft) in fields_of(t[1])])
    else:
        raise Unsupported('sort of %r' % (t,))
    s = d.create()
    _sorts[n] = s
    _dt[n] = s
    return s

# ------------------------------------------------------------------ values
class Val:
    __slots__ = ()

class VecVal(Val):
    __slots__ = ('n', 'a', 'et')
    def __init__(self, n, a, et):
        self.n = n; self.a = a; self.et = et

class MapVal(Val):
    __slots__ = ('dom', 'val', 'kt', 'vt')
    def __init__(self, dom, val, kt, vt):
        self.dom = dom; self.val = val; self.kt = kt; self.vt = vt

class StructVal(Val):
    __slots__ = ('t', 'f')
    def __init__(self, t, f):
        self.t = t; self.f = f

class Packed(Val):
    __slots__ = ('e', 't')
    def __init__(self, e, t):
        self.e = e; self.t = t

class Ref(Val):
    """an lvalue: root variable + access path"""
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()):
        self.root = root; self.path = tuple(path)
    def sub(self, acc):
        return Ref(self.root, self.path + (acc,))

class Iter(Val):
    """iterator: container lvalue + position (index / rank in enumeration)"""
    __slots__ = ('ref', 'pos', 't', 'dom')
    def __init__(self, ref, pos, t, dom=None):
        self.ref = ref; self.pos = pos; self.t = t; self.dom = dom

class RIter(Val):
    """reverse iterator: base position (== element index + 1)"""
    __slots__ = ('ref', 'pos', 't', 'dom')
    def __init__(self, ref, pos, t, dom=None):
        self.ref = ref; self.pos = pos; self.t = t; self.dom = dom

class Opaque(Val):
    __slots__ = ('tag', 'data')
    def __init__(self, tag='', data=None):
        self.tag = tag; self.data = data

class Null(Val):
    __slots__ = ()

class Rand(Val):
    """pointer to a C string literal / literal"""
    __slots__ = ('s',)

SCALARS = ('real', 'bool', 'int', 'str')

def is_scalar(t):
    return t[0] in SCALARS

def pair_fields(t):
    return [('first', t[1]), ('second', t[2])]

def pack(v):
    if isinstance(v, Packed):
        return v.e
    if isinstance(v, VecVal):
        s = sort_of(('vec', v.et))
        if z3.is_app(v.n) and z3.is_app(v.a):
            # eta: mk(n(x), a(x)) == x
            if v.n.num_args() == 1 and v.a.num_args() == 1 and v.n.decl().eq(s.accessor(0, 0)) and v.a.decl().eq(s.accessor(0, 1)) and v.n.arg(0).eq(v.a.arg(0)):
                return v.n.arg(0)
        return s.constructor(0)(v.n, v.a)
    if isinstance(v, MapVal):
        s = sort_of(('map', v.kt, v.vt))
        if v.dom.num_args() == 1 and v.val.num_args() == 1 and v.dom.decl().eq(s.accessor(0, 0)) and v.val.decl().eq(s.accessor(0, 1)) and v.dom.arg(0).eq(v.val.arg(0)):
            return v.dom.arg(0)
        return s.constructor(0)(v.dom, v.val)
    if isinstance(v, StructVal):
        s = sort_of(v.t)
        fl = pair_fields(v.t) if v.t[0] == 'pair' else fields_of(v.t[1])
        args = [pack(v.f[n]) if isinstance(v.f[n], Val) else v.f[n] for (n, _) in fl]
        if args and all(a.num_args() == 1 and a.decl().eq(s.accessor(0, i)) for i, a in enumerate(args)) and all(a.arg(0).eq(args[0].arg(0)) for a in args):
            return args[0].arg(0)
        return s.constructor(0)(*args)
    if isinstance(v, (Opaque, Null, Iter, Ref)):
        return z3.FreshConst(ClockS, 'opq')
    return v

def _acc(s, i, e):
    """accessor application with constructor simplification; ITEs are not pushed"""
    if z3.is_app(e) and e.decl().eq(s.constructor(0)):
        return e.arg(i)
    return s.accessor(0, i)(e)

def wrap(e, t):
    """SMT expression of type t -> value"""
    if is_scalar(t):
        return e
    if t[0] in ('opaque', 'ptr', 'iter'):
        return Opaque('packed', e)
    return Packed(e, t)

def hidden(v):
    return isinstance(v, Packed) and v.t[0] == 'struct' and v.t[1] in OPAQUE

def unfold(v):
    if not isinstance(v, Packed):
        return v
    t = v.t; e = v.e
    if t[0] == 'struct' and t[1] in OPAQUE:
        raise Unsupported('the representation of %s is hidden from this function' % t[1])
    s = sort_of(t)
    if t[0] in ('vec', 'arr'):
        return VecVal(_acc(s, 0, e), _acc(s, 1, e), t[1])
    if t[0] == 'map':
        return MapVal(_acc(s, 0, e), _acc(s, 1, e), t[1], t[2])
    if t[0] == 'pair':
        return StructVal(t, {'first': wrap(_acc(s, 0, e), t[1]), 'second': wrap(_acc(s, 1, e), t[2])})
    if t[0] == 'struct':
        return StructVal(t, {n: wrap(_acc(s, i, e), ft) for i, (n, ft) in enumerate(fields_of(t[1]))})
    raise Unsupported('unfold %r' % (t,))

_fresh = [0]
def fresh(t, hint):
    """fresh symbolic value of type t"""
    _fresh[0] += 1
    nm = '%s!%d' % (hint, _fresh[0])
    k = t[0]
    if is_scalar(t):
        return Const(nm, sort_of(t))
    if k in ('vec', 'arr'):
        return VecVal(Const(nm + '.n', IntSort()), Const(nm + '.a', ArraySort(IntSort(), sort_of(t[1]))), t[1])
    if k == 'map':
        return MapVal(Const(nm + '.dom', ArraySort(sort_of(t[1]), BoolSort())), Const(nm + '.val', ArraySort(sort_of(t[1]), sort_of(t[2]))), t[1], t[2])
    if k == 'pair':
        return StructVal(t, {n: fresh(ft, hint + '.' + n) for (n, ft) in pair_fields(t)})
    if k == 'struct':
        if t[1] in OPAQUE:
            return Packed(Const(nm, sort_of(t)), t)
        return StructVal(t, {n: fresh(ft, hint + '.' + n) for (n, ft) in fields_of(t[1])})
    if k in ('opaque', 'ptr', 'iter', 'riter'):
        return Opaque(nm)
    raise Unsupported('fresh %r' % (t,))

def default_value(t):
    k = t[0]
    if k == 'real':
        return RealVal(0)
    if k == 'int':
        return IntVal(0)
    if k == 'bool':
        return BoolVal(False)
    if k == 'str':
        return strlit('')
    if k == 'vec':
        return VecVal(IntVal(0), K(IntSort(), default_packed(t[1])), t[1])
    if k == 'map':
        return MapVal(K(sort_of(t[1]), BoolVal(False)), K(sort_of(t[1]), default_packed(t[2])), t[1], t[2])
    if k == 'pair':
        return StructVal(t, {n: default_value(ft) for (n, ft) in pair_fields(t)})
    if k == 'ptr':
        return Null()
    if k in ('opaque', 'iter', 'riter'):
        return Opaque('default')
    raise Unsupported('default %r' % (t,))

def default_packed(t):
    """default value used as array filler (for class types: an unconstrained constant)"""
    if t[0] == 'struct':
        return Const('dflt_' + tname(t), sort_of(t))
    if t[0] in ('opaque', 'ptr', 'iter'):
        return Const('dflt_opq', ClockS)
    return pack(default_value(t)) if not is_scalar(t) else default_value(t)

# strings ------------------------------------------------------------
_lits = {}
_litname = {}
def strlit(s):
    if s not in _lits:
        c = Const('str:"%s"' % s.replace('|', '_').replace('\\', '\\\\'), Str)
        _lits[s] = c
        _litname[c.get_id()] = s
    return _lits[s]

def litval(e):
    if z3.is_const(e):
        return _litname.get(e.get_id())
    return None

slen = Function('slen', Str, IntSort())
schar = Function('schar', Str, IntSort(), IntSort())
scat = Function('scat', Str, Str, Str)
ssub = Function('ssub', Str, IntSort(), IntSort(), Str)
sofc = Function('sofc', IntSort(), Str)
slt = Function('slt', Str, Str, BoolSort())
supper = Function('supper', Str, Str)
sfind = Function('sfind', Str, Str, IntSort(), IntSort())

# map enumeration ----------------------------------------------------
_card = {}
def card_fn(ks):
    k = ks.name()
    if k not in _card:
        A = ArraySort(ks, BoolSort())
        _card[k] = (Function('card_' + k, A, IntSort()), Function('keyat_' + k, A, IntSort(), ks), Function('rank_' + k, A, ks, IntSort()))
    return _card[k]

def card(dom):
    return card_fn(dom.sort().domain())[0](dom)

def keyat(dom, i):
    return card_fn(dom.sort().domain())[1](dom, i)

def rank(dom, k):
    return card_fn(dom.sort().domain())[2](dom, k)

# light-weight boolean/arith constructors -----------------------------
TRUE = BoolVal(True); FALSE = BoolVal(False)

def mkand(*xs):
    l = []
    for x in xs:
        if is_true(x):
            continue
        if is_false(x):
            return FALSE
        l.append(x)
    if not l:
        return TRUE
    return l[0] if len(l) == 1 else And(*l)

def mkor(*xs):
    l = []
    for x in xs:
        if is_false(x):
            continue
        if is_true(x):
            return TRUE
        l.append(x)
    if not l:
        return FALSE
    return l[0] if len(l) == 1 else Or(*l)

def mknot(x):
    if is_true(x):
        return FALSE
    if is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return Not(x)

def mkif(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    return If(c, a, b)

def sel(a, i):
    """select with read-over-write simplification for syntactically decidable indices"""
    while z3.is_app(a):
        dk = a.decl().kind()
        if dk == z3.Z3_OP_STORE:
            j = a.arg(1)
            if j.eq(i):
                return a.arg(2)
            if (z3.is_int_value(i) and z3.is_int_value(j)) or (z3.is_rational_value(i) and z3.is_rational_value(j)):
                a = a.arg(0); continue
            li, lj = litval(i), litval(j)
            if li is not None and lj is not None:
                a = a.arg(0); continue
            break
        if dk == z3.Z3_OP_CONST_ARRAY:
            return a.arg(0)
        break
    return Select(a, i)

def mkif_arr(c, a, b, depth=4):
    """if-then-else of arrays, pushed below stores at the same index over the same array"""
    if a.eq(b):
        return a
    S_ = z3.Z3_OP_STORE
    sa = z3.is_app(a) and a.decl().kind() == S_; sb_ = z3.is_app(b) and b.decl().kind() == S_
    if depth and sa and sb_ and a.arg(1).eq(b.arg(1)):
        return Store(mkif_arr(c, a.arg(0), b.arg(0), depth - 1), a.arg(1), mkif_el(c, a.arg(2), b.arg(2)))
    if sa and a.arg(0).eq(b):
        return Store(b, a.arg(1), mkif_el(c, a.arg(2), sel(b, a.arg(1))))
    if sb_ and b.arg(0).eq(a):
        return Store(a, b.arg(1), mkif_el(c, sel(a, b.arg(1)), b.arg(2)))
    return mkif(c, a, b)

def mkif_el(c, x, y):
    """if-then-else of elements: constructor terms are merged field by field"""
    if x.eq(y):
        return x
    if z3.is_array(x):
        return mkif_arr(c, x, y)
    if x.sort().kind() == z3.Z3_DATATYPE_SORT and x.sort().num_constructors() == 1 and z3.is_app(x) and z3.is_app(y):
        k = x.sort().constructor(0)
        cx = x.decl().eq(k); cy = y.decl().eq(k)
        if cx or cy:
            g = lambda t, ct, i: t.arg(i) if ct else x.sort().accessor(0, i)(t)
            return k(*[mkif_el(c, g(x, cx, i), g(y, cy, i)) for i in range(k.arity())])
    return mkif(c, x, y)

def ite_val(c, a, b):
    """merge two values"""
    if a is b:
        return a
    if is_true(c):
        return a
    if is_false(c):
        return b
    if not isinstance(a, Val) and not isinstance(b, Val):
        return mkif(c, a, b)
    if isinstance(a, Packed) and isinstance(b, Packed):
        if a.e.eq(b.e):
            return a
        return Packed(mkif_el(c, a.e, b.e), a.t)
    if isinstance(a, Packed):
        a = unfold(a)
    if isinstance(b, Packed):
        b = unfold(b)
    if isinstance(a, VecVal) and isinstance(b, VecVal):
        return VecVal(mkif(c, a.n, b.n), mkif_arr(c, a.a, b.a), a.et)
    if isinstance(a, MapVal) and isinstance(b, MapVal):
        return MapVal(mkif_arr(c, a.dom, b.dom), mkif_arr(c, a.val, b.val), a.kt, a.vt)
    if isinstance(a, StructVal) and isinstance(b, StructVal):
        return StructVal(a.t, {n: ite_val(c, a.f[n], b.f[n]) for n in a.f})
    if isinstance(a, Iter) and isinstance(b, Iter) and same_ref(a.ref, b.ref):
        return Iter(a.ref, mkif(c, a.pos, b.pos), a.t, a.dom if a.dom is not None and b.dom is not None and a.dom.eq(b.dom) else (a.dom if b.dom is None else b.dom))
    if isinstance(a, Ref) and isinstance(b, Ref) and same_ref(a, b):
        return a
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a if a.tag == b.tag else Opaque('merged%d' % (len(_litname) + id(a) % 9973))
    if isinstance(a, Null) and isinstance(b, Null):
        return a
    return Undef('merge of %s and %s' % (type(a).__name__, type(b).__name__))

class Undef(Val):
    """value that must not be used (e.g. a merge the model cannot express)"""
    __slots__ = ('why',)
    def __init__(self, why):
        self.why = why

def same_acc(x, y):
    if x[0] != y[0]:
        return False
    if x[0] == 'f':
        return x[1] == y[1]
    return x[1].eq(y[1])

def same_ref(a, b):
    return a.root == b.root and len(a.path) == len(b.path) and all(same_acc(x, y) for x, y in zip(a.path, b.path))
