"""Gated value graph: a hash-consed DAG of the values a function computes, built by one forward
pass over its (acyclic, fully inlined and unrolled) SSA control-flow graph.  Joins become gating
('ite') nodes, memory is a map from (object, byte offset) to values.  Nothing is executed."""
import math
import re
from fractions import Fraction
from ir import *


class Unsupported(Exception):
    pass


class N:
    """hash-consed node; also the expression type specifications are written in"""
    __slots__ = ('k', 'a', 'id', 'dbg')
    _tab = {}
    _n = 0

    def __new__(cls, k, *a):
        key = (k,) + tuple(x.id if isinstance(x, N) else x for x in a)
        n = N._tab.get(key)
        if n is None:
            n = object.__new__(cls)
            n.k = k
            n.a = a
            n.id = ('n', N._n)
            n.dbg = None
            N._n += 1
            N._tab[key] = n
        return n

    def __init__(self, *a):
        pass

    def __add__(self, o):
        return add(self, w(o))

    def __radd__(self, o):
        return add(w(o), self)

    def __sub__(self, o):
        return sub(self, w(o))

    def __rsub__(self, o):
        return sub(w(o), self)

    def __mul__(self, o):
        return mul(self, w(o))

    def __rmul__(self, o):
        return mul(w(o), self)

    def __truediv__(self, o):
        return div(self, w(o))

    def __rtruediv__(self, o):
        return div(w(o), self)

    def __neg__(self):
        return neg(self)

    def __lt__(self, o):
        return cmp('lt', self, w(o))

    def __le__(self, o):
        return cmp('le', self, w(o))

    def __gt__(self, o):
        return cmp('lt', w(o), self)

    def __ge__(self, o):
        return cmp('le', w(o), self)

    def eq(self, o):
        if isinstance(o, N) and o.k == 'ic' or self.k in ('ic', 'ivar', 'iop', 'f2i'):
            return icmp('eq', self, o if isinstance(o, N) else ic(o), 32)
        return cmp('eq', self, w(o))

    def ne(self, o):
        return not_(self.eq(o))

    def __and__(self, o):
        return and_(self, o)

    def __or__(self, o):
        return or_(self, o)

    def __invert__(self):
        return not_(self)

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError('value-graph node used as a Python truth value')

    __hash__ = object.__hash__


def show(n, d=6):
    if not isinstance(n, N):
        return repr(n)
    if n.k in ('q', 'ic'):
        return str(n.a[0])
    if n.k in ('var', 'ivar'):
        return n.a[0]
    if d == 0:
        return '…'
    if n.k in ('+', '-', '*', '/') and len(n.a) == 2:
        return '(%s%s%s)' % (show(n.a[0], d - 1), n.k, show(n.a[1], d - 1))
    return '%s(%s)' % (n.k, ', '.join(show(x, d - 1) if isinstance(x, N) else str(x) for x in n.a))


def q(v):
    v = Fraction(v)
    return N('q', v)


def w(x):
    if isinstance(x, N):
        return x
    if isinstance(x, bool):
        return T if x else F
    if isinstance(x, (int, Fraction)):
        return q(x)
    if isinstance(x, float):
        return const_real(x, False)
    raise TypeError(x)


T = N('T')
F = N('F')
PI = N('pi')
UNDEF = N('undef')
BOT = N('bot')


def var(n):
    return N('var', n)


def add(a, b):
    if a.k == 'q' and a.a[0] == 0:
        return b
    if b.k == 'q' and b.a[0] == 0:
        return a
    if a.k == 'q' and b.k == 'q':
        return q(a.a[0] + b.a[0])
    return N('+', a, b) if a.id <= b.id else N('+', b, a)


def sub(a, b):
    if b.k == 'q' and b.a[0] == 0:
        return a
    if a.k == 'q' and b.k == 'q':
        return q(a.a[0] - b.a[0])
    return N('-', a, b)


def mul(a, b):
    if a.k == 'q' and b.k == 'q':
        return q(a.a[0] * b.a[0])
    if a.k == 'q' and a.a[0] == 1:
        return b
    if b.k == 'q' and b.a[0] == 1:
        return a
    return N('*', a, b) if a.id <= b.id else N('*', b, a)


def div(a, b):
    if b.k == 'q' and b.a[0] == 1:
        return a
    if a.k == 'q' and b.k == 'q' and b.a[0] != 0:
        return q(a.a[0] / b.a[0])
    return N('/', a, b)


def neg(a):
    if a.k == 'q':
        return q(-a.a[0])
    if a.k == 'neg':
        return a.a[0]
    return N('neg', a)


def fn(name, *args):
    return N('fn', name, *[w(x) for x in args])


def sqrt(a):
    return fn('sqrt', a)


def sin(a):
    return fn('sin', a)


def cos(a):
    return fn('cos', a)


def cmp(op, a, b):
    if a.k == 'q' and b.k == 'q':
        x, y = a.a[0], b.a[0]
        return T if {'lt': x < y, 'le': x <= y, 'eq': x == y}[op] else F
    if op == 'le' and a.k == 'q' and a.a[0] <= 0 and is_abs(b):
        return T
    if op == 'lt' and b.k == 'q' and b.a[0] <= 0 and is_abs(a):
        return F
    return N('cmp', op, a, b)


def is_abs(n):
    """the absolute value of something (also after rounding to single precision)"""
    if n.k == 'fn' and n.a[0] == 'tr32':
        return is_abs(n.a[1])
    if n.k != 'ite' or n.a[0].k != 'cmp':
        return False
    c, a, b = n.a
    return c.a[0] == 'lt' and c.a[2].k == 'q' and c.a[2].a[0] == 0 and c.a[1] is b and neg(b) is a


def tr32(a):
    """rounding to single precision"""
    if a.k == 'q':
        x = float(a.a[0])
        if Fraction(x) == a.a[0] or abs(x) < 3e38:
            y = _f32(x)
            return a if y == x else const_real(y, True) if math.isinf(y) else q(Fraction(y))
    return N('fn', 'tr32', a)


def opaque(n, memo, which=None):
    """the same value when the outcome of every comparison with an absolute value is forgotten
    (an unknown truth value per comparison, except where it is decided by the sign alone);
    which(comparison): another choice of the comparisons to forget"""
    if not isinstance(n, N):
        return n
    r = memo.get(n.id)
    if r is not None:
        return r
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        todo = [y for y in x.a if isinstance(y, N) and y.id not in memo]
        if todo:
            st += todo
            continue
        st.pop()
        a = [memo[y.id] if isinstance(y, N) else y for y in x.a]
        if x.k == 'cmp' and (which(x) if which else is_abs(x.a[1]) or is_abs(x.a[2])):
            r = _forget(a[0], a[1], a[2], N('bvar', '?%d' % x.id[1]), {})
        elif x.k == 'ite':
            r = ite(*a)
        elif x.k == 'not':
            r = not_(*a)
        elif x.k == 'and':
            r = and_(*a)
        elif x.k == 'or':
            r = or_(*a)
        elif x.k == 'cmpi':
            r = icmp(*a)
        elif x.k == 'iop':
            r = iop(*a)
        else:
            r = N(x.k, *a)
        memo[x.id] = r
    return memo[n.id]


def _forget(op, a, b, bv, memo):
    k = (a.id, b.id)
    if k not in memo:
        if a.k == 'ite' and not is_abs(a):
            r = ite(a.a[0], _forget(op, a.a[1], b, bv, memo), _forget(op, a.a[2], b, bv, memo))
        elif b.k == 'ite' and not is_abs(b):
            r = ite(b.a[0], _forget(op, a, b.a[1], bv, memo), _forget(op, a, b.a[2], bv, memo))
        else:
            r = cmp(op, a, b)
            r = r if r in (T, F) else bv
        memo[k] = r
    return memo[k]


def not_(c):
    if c is T:
        return F
    if c is F:
        return T
    if c.k == 'not':
        return c.a[0]
    return N('not', c)


def and_(a, b):
    if a is F or b is F:
        return F
    if a is T:
        return b
    if b is T:
        return a
    return N('and', a, b)


def or_(a, b):
    if a is T or b is T:
        return T
    if a is F:
        return b
    if b is F:
        return a
    return N('or', a, b)


def ite(c, a, b):
    if not isinstance(a, N):
        a = w(a)
    if not isinstance(b, N):
        b = w(b)
    if c is T:
        return a
    if c is F:
        return b
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    if c.k == 'not':
        return ite(c.a[0], b, a)
    if a.k == 'ite' and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.k == 'ite' and b.a[0] is c:
        return ite(c, a, b.a[2])
    if a is T and b is F:
        return c
    if a is F and b is T:
        return not_(c)
    if b is F:
        return and_(c, a)
    if a is T:
        return or_(c, b)
    if a is F:
        return and_(not_(c), b)
    if b is T:
        return or_(not_(c), a)
    return N('ite', c, a, b)


def vmin(a, b):
    a, b = w(a), w(b)
    return ite(a < b, a, b)


def vmax(a, b):
    a, b = w(a), w(b)
    return ite(a > b, a, b)


def vabs(a):
    return ite(a < 0, -a, a)


def all_(*cs):
    r = T
    for c in cs:
        r = and_(r, c)
    return r


def any_(*cs):
    r = F
    for c in cs:
        r = or_(r, c)
    return r


def ic(v):
    return N('ic', v)


# --------------------------------------------------------------- constants
_PI = math.pi
_PI_FR = Fraction('3.14159265358979323846264338327950288419716939937510582097494459230781640628620899')


def _f32(x):
    import struct
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


_cr = {}


def const_real(x, is_float):
    """Map a floating constant to the real number it denotes: the simplest rational, or rational
    multiple of pi, that rounds to it in its format (else its exact dyadic value)."""
    k = (x, is_float)
    r = _cr.get(k)
    if r is None:
        r = _const_real(x, is_float)
        _cr[k] = r
    return r


FLT_MAX = 3.4028234663852886e+38
DBL_MAX = 1.7976931348623157e+308
FLT_MIN = 1.1754943508222875e-38
DBL_MIN = 2.2250738585072014e-308


def _const_real(x, is_float):
    if x != x:
        return N('nan')
    if math.isinf(x):
        return N('huge', 'inf') if x > 0 else neg(N('huge', 'inf'))
    mx, mn = (FLT_MAX, FLT_MIN) if is_float else (DBL_MAX, DBL_MIN)
    if abs(x) == mx:
        return N('huge', 'max') if x > 0 else neg(N('huge', 'max'))
    if x == mn:
        return N('huge', 'min')
    fx = Fraction(x)
    if fx.denominator == 1 and abs(fx) < 2 ** 53:
        return q(fx)
    rnd = _f32 if is_float else (lambda v: v)
    maxden = 2000 if is_float else 1000000
    # simplest rational (Stern-Brocot via continued fractions)
    for md in (1, 2, 4, 5, 8, 10, 16, 20, 32, 64, 100, 200, 255, 256, 360, 1000, maxden):
        c = fx.limit_denominator(md)
        if c != 0 and rnd(float(c)) == x:
            return q(c)
    for den in (1, 2, 3, 4, 6, 8, 12, 16, 180):
        for num in (1, 2, 3, 4, 5, 6, 8):
            for s in (1, -1):
                v = _PI_FR * num / den * s
                if abs(fx - v) <= abs(v) * Fraction(3, 2 ** (24 if is_float else 53)):
                    return mul(q(Fraction(s * num, den)), PI)
                v = Fraction(s * num * den) / _PI_FR
                if abs(fx - v) <= abs(v) * Fraction(3, 2 ** (24 if is_float else 53)):
                    return div(q(s * num * den), PI)
    if not is_float:
        m = re.match(r'-?(\d+)\.?(\d*)(e-?\d+)?$', repr(x))
        if m and len((m.group(1) + m.group(2)).strip('0')) <= 11:
            return q(Fraction(repr(x)))
        # multiples of 1/RAND_MAX
        v = fx * (2 ** 31 - 1)
        k = round(v)
        if 0 < abs(k) <= 1000 and abs(v - k) <= abs(k) * Fraction(1, 2 ** 52):
            return q(Fraction(k, 2 ** 31 - 1))
    # powers of ten
    for e in range(3, 16):
        for m in (1, 2, 5):
            v = Fraction(m, 10 ** e)
            for s in (1, -1):
                if rnd(float(v)) == x * s:
                    return q(v * s)
    return q(fx)


# --------------------------------------------------------------- pointers / objects
class Obj:
    def __init__(self, name, layout=None, kind='arg', size=None):
        self.name = name
        self.layout = layout or {}
        self.kind = kind
        self.size = size

    def __repr__(self):
        return 'obj:' + self.name


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off

    def __hash__(self):
        return hash((id(self.obj), self.off))

    def __repr__(self):
        return '&%s+%s' % (self.obj.name, self.off)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class Vec:
    """vector / aggregate / raw-bytes value: list of (size, node)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


NULL = Obj('null', kind='null')

MATH1 = {'sqrt': 'sqrt', 'sqrtf': 'sqrt', 'sin': 'sin', 'sinf': 'sin', 'cos': 'cos', 'cosf': 'cos', 'tan': 'tan', 'tanf': 'tan',
         'asin': 'asin', 'asinf': 'asin', 'acos': 'acos', 'acosf': 'acos', 'atan': 'atan', 'atanf': 'atan', 'exp': 'exp',
         'expf': 'exp', 'log': 'log', 'logf': 'log', 'fabs': 'fabs', 'fabsf': 'fabs', 'floor': 'floor', 'floorf': 'floor',
         'ceil': 'ceil', 'ceilf': 'ceil', 'exp2': 'exp2', 'exp2f': 'exp2', 'cbrt': 'cbrt', 'round': 'round', 'roundf': 'round', 'trunc': 'trunc', 'truncf': 'trunc'}
MATH2 = {'atan2': 'atan2', 'atan2f': 'atan2', 'fmod': 'fmod', 'fmodf': 'fmod', 'pow': 'pow', 'powf': 'pow', 'fmin': 'fmin',
         'fmax': 'fmax', 'fminf': 'fmin', 'fmaxf': 'fmax', 'hypot': 'hypot', 'hypotf': 'hypot', 'copysign': 'copysign',
         'remainder': 'remainder', 'remainderf': 'remainder', 'ldexp': 'ldexp', 'ldexpf': 'ldexp'}
FLOATFN = set(x for x in list(MATH1) + list(MATH2) if x.endswith('f') and x[:-1] in (set(MATH1) | set(MATH2)))
INTRIN = {'llvm.sqrt': 'sqrt', 'llvm.sin': 'sin', 'llvm.cos': 'cos', 'llvm.fabs': 'fabs', 'llvm.floor': 'floor', 'llvm.ceil': 'ceil',
          'llvm.pow': 'pow', 'llvm.exp': 'exp', 'llvm.log': 'log', 'llvm.exp2': 'exp2', 'llvm.minnum': 'fmin', 'llvm.maxnum': 'fmax',
          'llvm.copysign': 'copysign', 'llvm.trunc': 'trunc', 'llvm.round': 'round'}
IGNORE = ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.prefetch')


class Dependent(Unsupported):
    pass


ROUNDS = 200    # rounds of one loop that are followed


class Env(dict):
    """values of the registers; those of loop bodies per round"""

    def __init__(self, b, *a):
        self.b = b
        dict.__init__(self, *a)

    def key(self, k):
        d = self.b.defdepth.get(k)
        return (k, self.b.ctx[:d]) if d else k

    def __getitem__(self, k):
        return dict.__getitem__(self, self.key(k))

    def __setitem__(self, k, v):
        dict.__setitem__(self, self.key(k), v)

    def __contains__(self, k):
        return dict.__contains__(self, self.key(k))

    def update(self, d):
        for k, v in d.items():
            self[k] = v


class Summary:
    pass


class Builder:
    """Builds the value graph of one function."""

    def __init__(self, mod, func, args, is_float, global_mem=None, prefix='', mem0=None, init_mode=False):
        self.m = mod
        self.f = func
        self.is_float = is_float
        self.defdepth, self.ctx, self.unroll = {}, (), False
        self.env = Env(self)
        self.assumed = []      # conditions under which retry loops are left
        self.gobj = {}
        self.global_mem = global_mem or {}
        self.fresh = 0
        self.mem0 = mem0 or {}
        self.init_mode = init_mode
        self.prefix = prefix
        self.calls = []
        self.stores = []      # (obj, off, size, dbg)
        self.reads = []
        self.lines = {}
        self.last_store = {}  # (objname, off) -> dbg
        self.truncs = []
        self.allocs = []
        self.faults = {}      # (what, dbg) -> cell of fobj
        self.fobj = Obj('#faults', kind='local')
        self.hobj = Obj('#heap', kind='local')
        self.insts = 0
        self.depth = 0
        self.inner = []
        for (ty, nm, at), v in zip(func.params, args):
            self.env[nm] = v

    # ---- operands
    def val(self, v, ty):
        k = v[0]
        if k == 'loc':
            if v[1] not in self.env:
                raise Unsupported('use of %s before definition (loop?)' % v[1])
            return self.env[v[1]]
        if k == 'ci':
            if ty == ('int', 1):
                return T if v[1] else F
            return ic(v[1])
        if k == 'cf':
            return const_real(v[1], self.is_float or ty == FLOAT and self.is_float) if not (ty == FLOAT and not self.is_float) else const_real(v[1], True)
        if k == 'undef':
            return self.undef(ty)
        if k == 'null':
            return Ptr(NULL, 0)
        if k == 'zero':
            return self.zero(ty)
        if k == 'glob':
            return Ptr(self.globobj(v[1]), 0)
        if k == 'agg':
            return Vec([(self.m.size_align(t)[0], self.val(x, t)) for t, x in v[1]])
        if k == 'cexpr':
            if v[1] == 'getelementptr':
                base = self.val(v[2][1][1], PTR)
                return self.gep(base, v[2][0], [(t, x) for t, x in v[2][2:]])
            raise Unsupported('constant expression ' + v[1])
        raise Unsupported('operand %r' % (v,))

    def undef(self, ty):
        if ty[0] == 'vec' or ty[0] == 'arr':
            return Vec([(self.m.size_align(ty[2])[0], self.undef(ty[2])) for _ in range(ty[1])])
        if ty[0] == 'struct':
            return Vec([(self.m.size_align(t)[0], self.undef(t)) for t in ty[1]])
        if ty[0] == 'named':
            return self.undef(self.m.types[ty[1]])
        return UNDEF

    def zero(self, ty):
        if ty[0] in ('vec', 'arr'):
            return Vec([(self.m.size_align(ty[2])[0], self.zero(ty[2])) for _ in range(ty[1])])
        if ty[0] == 'struct':
            return Vec([(self.m.size_align(t)[0], self.zero(t)) for t in ty[1]])
        if ty[0] == 'named':
            return self.zero(self.m.types[ty[1]])
        if ty in (FLOAT, DOUBLE):
            return q(0)
        if ty == ('int', 1):
            return F
        if ty == PTR:
            return Ptr(NULL, 0)
        return ic(0)

    def globobj(self, name):
        for k in self.mem0:
            if k.kind == 'global' and k.name == name:
                return k
        o = self.gobj.get(name)
        if o is None:
            o = Obj(name, kind='global')
            self.gobj[name] = o
        return o

    def gep(self, base, ty, idx):
        if isinstance(base, PIte):
            return PIte(base.c, self.gep(base.a, ty, idx), self.gep(base.b, ty, idx))
        off = 0
        dyn = None
        cur = ty
        first = True
        for t, v in idx:
            i = self.val(v, t)
            if first:
                step = self.m.size_align(ty)[0]
            elif cur[0] == 'named' or cur[0] == 'struct':
                c = cur
                if i.k != 'ic':
                    raise Unsupported('dynamic struct index')
                o, cur = self.m.field(c, i.a[0])
                off += o
                first = False
                continue
            else:
                step = self.m.size_align(cur[2])[0]
                cur = cur[2]
            first = False
            if i.k == 'ic':
                off += step * i.a[0]
            else:
                t2 = iop('mul', i, ic(step), 64) if step != 1 else i
                dyn = t2 if dyn is None else iop('add', dyn, t2, 64)
        if not isinstance(base, Ptr):
            raise Unsupported('gep on non-pointer')
        if dyn is None and not isinstance(base.off, N):
            return Ptr(base.obj, base.off + off)
        b = base.off if isinstance(base.off, N) else ic(base.off)
        r = b
        if off:
            r = iop('add', r, ic(off), 64)
        if dyn is not None:
            r = iop('add', r, dyn, 64) if not (r.k == 'ic' and r.a[0] == 0) else dyn
        if r.k == 'ic':
            r = r.a[0]
        return Ptr(base.obj, r)

    def places(self, p, need=1):
        """[(condition, pointer)] the possible targets of a pointer whose offset is gated or computed"""
        vals = const_leaves(p.off)
        if vals is not None:
            return [(icmp('eq', p.off, ic(v), 64), Ptr(p.obj, v)) for v in sorted(vals)]
        # every place of an object of known size the offset can name: inside it, at its stride
        size = self.extent(p.obj)
        k, dyn = linear(p.off)
        if size is None or not dyn:
            raise Unsupported('access at a symbolic offset of %s' % p.obj.name)
        g = 0
        for m in dyn.values():
            g = math.gcd(g, m[1])
        offs = [o for o in range(k % g, size - need + 1, g)]
        if len(offs) > 64:
            raise Unsupported('access at a symbolic offset of %s' % p.obj.name)
        one = next(iter(dyn.values())) if len(dyn) == 1 else None
        out = []
        for o in offs:
            c = icmp('eq', one[0], ic((o - k) // one[1]), 64) if one else icmp('eq', p.off, ic(o), 64)
            out.append((c, Ptr(p.obj, o)))
        return out

    def extent(self, obj):
        """size in bytes of an object, if known"""
        if obj.size is not None:
            return obj.size
        if obj.kind == 'global':
            g = self.m.globals.get(obj.name)
            return self.m.size_align(g[1])[0] if g else None
        if obj.kind == 'arg' and obj.layout and getattr(obj, 'tname', None) not in ('Rp', 'cRp'):
            o = max(obj.layout)
            return o + (4 if obj.layout[o][1] == 'int' else 1 if obj.layout[o][1] == 'bool' else 4 if self.is_float else 8)
        return None

    def fault(self, mem, what, cond, dbg):
        """remember that the memory rule 'what' is broken here when cond holds"""
        if cond is F:
            return
        k = (what, dbg)
        i = self.faults.get(k)
        if i is None:
            i = self.faults[k] = len(self.faults)
        cells = dict(mem.get(self.fobj, {}))
        old = cells[i][1] if i in cells else F
        cells[i] = (1, or_(old, cond))
        mem[self.fobj] = cells

    def touch(self, mem, p, size, cond, dbg, what):
        o = p.obj
        if o.kind in ('local', 'global'):
            n = self.extent(o)
            if n is not None and (p.off < 0 or p.off + size > n):
                self.fault(mem, '%s at byte %d of an object of %d bytes' % (what, p.off, n), cond, dbg)
            return
        if o.kind != 'heap':
            return
        if o.size is not None and (p.off < 0 or p.off + size > o.size):
            self.fault(mem, '%s at byte %d of an array of %d bytes' % (what, p.off, o.size), cond, dbg)
        freed = mem.get(self.hobj, {}).get(o.name)
        if freed is not None and freed[1] is not ic(0):
            self.fault(mem, '%s after the array was released' % what, and_(cond, not_(icmp('eq', freed[1], ic(0), 32))), dbg)

    def touch_outside(self, mem, p, l, cond, dbg, what):
        ok = F
        for c, _ in l:
            ok = or_(ok, c)
        self.fault(mem, '%s outside %s' % (what, 'a temporary' if p.obj.kind == 'local' else 'a constant table' if p.obj.kind == 'global' else 'an array'), and_(cond, not_(ok)), dbg)

    def free(self, mem, p, arr, cond, dbg):
        if isinstance(p, PIte):
            self.free(mem, p.a, arr, and_(cond, p.c), dbg)
            self.free(mem, p.b, arr, and_(cond, not_(p.c)), dbg)
            return
        if p is UNDEF or p is BOT or not isinstance(p, Ptr):
            self.fault(mem, 'release of an uninitialised pointer', cond, dbg)
            return
        if p.obj is NULL:
            return
        if p.obj.kind != 'heap' or p.off != 0:
            self.fault(mem, 'release of something that was not allocated', cond, dbg)
            return
        if p.obj.arr != arr:
            self.fault(mem, 'release with the wrong operator delete', cond, dbg)
        cells = dict(mem.get(self.hobj, {}))
        old = cells[p.obj.name][1]
        cells[p.obj.name] = (4, ite(cond, iop('add', old, ic(1), 32), old))
        mem[self.hobj] = cells

    def state(self, obj, off, ty):
        """what earlier calls left in static storage: any value"""
        n = 'state left in %s+%d' % (obj.name.strip('@"'), off)
        if ty in (FLOAT, DOUBLE):
            return var(n)
        if ty[0] == 'int':
            return N('ivar', n, ty[1]) if ty[1] > 1 else N('cmpi', 'ne', N('ivar', n, 1), ic(0))
        raise Unsupported('static storage of a type that is not a number')

    # ---- memory: dict obj -> dict off -> (size, value)
    def init_cell(self, obj, off, size, ty):
        if obj.kind == 'arg':
            nm = obj.layout.get(off)
            if nm is None:
                nm = ('%s+%d' % (obj.name, off), None)
            name, kind = nm
            if kind == 'bool':
                return N('ivar', name, 1) if ty != ('int', 1) else N('cmpi', 'ne', N('ivar', name, 1), ic(0))
            if kind == 'int':
                return N('ivar', name, 32)
            if kind == 'ptr':
                raise Unsupported('pointer load from %s' % name)
            if ty[0] == 'int' and kind is None:
                return N('ivar', name, ty[1])
            if off not in obj.layout and getattr(obj, 'tname', None) not in ('R&', 'Rp', 'cRp'):
                return N('ivar', name, 32)
            return var(name)
        if obj.kind == 'global':
            g = self.m.globals.get(obj.name)
            gm = self.global_mem.get(obj.name)
            if gm is not None and off in gm:
                return gm[off][1]
            if gm and off < max(gm) and not any(o <= off < o + c[0] or off <= o < off + (4 if ty == ('float',) else 8 if ty == ('double',) else (ty[1] + 7) // 8 if ty[0] == 'int' else 1) for o, c in gm.items()):
                return UNDEF       # padding of an aggregate copied as a whole
            if g and (g[0] == 'constant' or self.init_mode or gm is None and obj.name not in self.m.state() and obj.name.startswith(('@_ZZ', '@_ZL', '@"_ZZ'))) and g[2] is not None:
                r = self.const_at(g[1], g[2], off, ty)
                if r is not None:
                    return r
            if obj.name.startswith(('@_ZGV', '@"_ZGV')):
                return ic(0)       # a static local is initialised by the call that is looked at
            if not self.init_mode and obj.name in self.m.state():
                return self.state(obj, off, ty)
            raise Unsupported('load from global %s+%d' % (obj.name, off))
        if obj.kind == 'null':
            return UNDEF
        return UNDEF

    def const_at(self, gty, gv, off, ty):
        base = 0
        v, t = gv, gty
        while True:
            if v[0] == 'zero':
                return self.zero(ty)
            if t[0] == 'named':
                t = self.m.types[t[1]]
            if t[0] in ('arr', 'vec', 'struct') and v[0] == 'agg':
                found = False
                for i, (et, ev) in enumerate(v[1]):
                    o, _ = self.m.field(t, i)
                    s = self.m.size_align(et)[0]
                    if base + o <= off < base + o + s:
                        base += o
                        v, t = ev, et
                        found = True
                        break
                if not found:
                    return None
                continue
            if base == off:
                return self.val(v, t)
            return None

    def load(self, mem, p, ty, dbg=None, cond=T):
        if isinstance(p, PIte):
            return self.mk_ite(p.c, self.load(mem, p.a, ty, dbg, and_(cond, p.c)), self.load(mem, p.b, ty, dbg, and_(cond, not_(p.c))))
        if not isinstance(p, Ptr):
            if p is UNDEF or p is BOT:
                return self.undef(ty)
            raise Unsupported('load through %r' % (p,))
        if isinstance(p.off, N):
            l = self.places(p, self.m.size_align(ty)[0])
            r = None if const_leaves(p.off) is not None else self.undef(ty)
            if r is not None:
                self.touch_outside(mem, p, l, cond, dbg, 'read')
            for c, t in reversed(l):
                x = self.load(mem, t, ty, dbg, and_(cond, c))
                r = x if r is None else self.mk_ite(c, x, r)
            return r
        self.touch(mem, p, self.m.size_align(ty)[0], cond, dbg, 'read')
        if ty[0] in ('vec', 'arr'):
            es = self.m.size_align(ty[2])[0]
            return Vec([(es, self.load(mem, Ptr(p.obj, p.off + es * i), ty[2], dbg, cond)) for i in range(ty[1])])
        if ty[0] in ('struct', 'named'):
            t = self.m.types[ty[1]] if ty[0] == 'named' else ty
            r = []
            for i in range(len(t[1])):
                o, et = self.m.field(t, i)
                r.append((self.m.size_align(et)[0], self.load(mem, Ptr(p.obj, p.off + o), et, dbg, cond)))
            return Vec(r)
        size = self.m.size_align(ty)[0]
        cells = mem.get(p.obj, {})
        c = cells.get(p.off)
        self.reads.append((p.obj, p.off, size, dbg))
        if c is not None:
            if c[0] == size:
                return self.conv(c[1], ty)
            if c[0] < size or c[0] > size:
                return self.rawload(cells, p, size, ty)
        # a raw load covering several cells?
        if ty[0] == 'int' and (size == 8 or size > 8):
            unit = self.unit(p.obj)
            if unit and unit < size:
                return self.rawload(cells, p, size, ty)
        for o, (s, v) in cells.items():
            if o < p.off + size and p.off < o + s:
                return self.rawload(cells, p, size, ty)
        if ty[0] == 'int' and p.obj.kind == 'arg':
            nm = p.obj.layout.get(p.off)
            if nm and nm[1] is None:  # integer copy of a real cell
                return self.init_cell(p.obj, p.off, size, FLOAT)
        return self.init_cell(p.obj, p.off, size, ty)

    def unit(self, obj):
        if obj.layout:
            return min([b - a for a, b in zip(sorted(obj.layout), sorted(obj.layout)[1:])] or [8])
        return None

    @staticmethod
    def gap(cells, off, size):
        """the extent of a cell not stored to yet: aligned, and ending where the next stored one begins"""
        while size & (size - 1):
            size &= size - 1
        while off % size:
            size //= 2
        for o in cells:
            if off < o < off + size:
                size = o - off
        return size

    def rawload(self, cells, p, size, ty):
        out = []
        o = p.off
        end = p.off + size
        unit = self.unit(p.obj) or 4
        while o < end:
            c = cells.get(o)
            if c is not None:
                if o + c[0] > end:
                    raise Unsupported('partial load of a cell of %s' % p.obj.name)
                out.append((c[0], c[1]))
                o += c[0]
            else:
                u = self.gap(cells, o, min(unit, end - o))
                out.append((u, self.init_cell(p.obj, o, u, ('int', 32) if p.obj.layout.get(o, (0, 0))[1] == 'int' else (FLOAT if u == 4 else DOUBLE))))
                o += u
        return Vec(out) if len(out) > 1 else out[0][1]

    def conv(self, v, ty):
        if isinstance(v, N) and ty == ('int', 1) and v.k in ('ic',):
            return T if v.a[0] & 1 else F
        return v

    def targets(self, p, c):
        if isinstance(p, PIte):
            return self.targets(p.a, and_(c, p.c)) + self.targets(p.b, and_(c, not_(p.c)))
        return [(c, p)] if isinstance(p, Ptr) and c is not F else []

    def store(self, mem, p, v, ty, dbg, cond=T):
        if isinstance(p, PIte):
            # every possible target keeps its present value except under its own condition
            for c, t in self.targets(p, T):
                cc = and_(cond, c)
                self.store(mem, t, self.mk_ite(c, v, self.load(mem, t, ty, dbg, cc)), ty, dbg, cc)
            return
        if not isinstance(p, Ptr):
            if p is UNDEF or p is BOT:
                return
            raise Unsupported('store through %r' % (p,))
        if isinstance(p.off, N):
            l = self.places(p, self.m.size_align(ty)[0])
            if const_leaves(p.off) is None:
                self.touch_outside(mem, p, l, cond, dbg, 'write')
            for c, t in l:
                cc = and_(cond, c)
                self.store(mem, t, self.mk_ite(c, v, self.load(mem, t, ty, dbg, cc)), ty, dbg, cc)
            return
        size = self.m.size_align(ty)[0]
        self.touch(mem, p, size, cond, dbg, 'write')
        if p.obj.kind == 'global' and not self.init_mode and '@_ZGV' + p.obj.name[3:] in self.m.globals and isinstance(v, N) and has_input(v):
            v = self.state(p.obj, p.off, ty)     # initialised once: by the arguments of whichever call came first
        if isinstance(v, Vec):
            o = p.off
            for s, e in v.e:
                self.cell_store(mem, p.obj, o, s, e, dbg)
                o += s
            return
        self.cell_store(mem, p.obj, p.off, size, v, dbg)

    def cell_store(self, mem, obj, off, size, v, dbg):
        if isinstance(v, Vec):
            for s, e in v.e:
                self.cell_store(mem, obj, off, s, e, dbg)
                off += s
            return
        cells = mem.get(obj)
        cells = dict(cells) if cells is not None else {}
        for o in list(cells):
            s = cells[o][0]
            if o != off and o < off + size and off < o + s:
                if o >= off and o + s <= off + size:
                    del cells[o]
                else:
                    raise Unsupported('overlapping partial store')
        cells[off] = (size, v)
        mem[obj] = cells
        self.stores.append((obj, off, size, dbg))
        self.last_store[(obj.name, off)] = dbg

    def mk_ite(self, c, a, b):
        if isinstance(a, N) and isinstance(b, N):
            return ite(c, a, b)
        if a is BOT:
            return b
        if b is BOT:
            return a
        if isinstance(a, Vec) and isinstance(b, Vec):
            if len(a.e) == len(b.e) and all(x[0] == y[0] for x, y in zip(a.e, b.e)):
                return Vec([(x[0], self.mk_ite(c, x[1], y[1])) for x, y in zip(a.e, b.e)])
            raise Unsupported('merge of differently shaped aggregates')
        if isinstance(a, Vec) and b is UNDEF:
            return Vec([(s, self.mk_ite(c, x, UNDEF)) for s, x in a.e])
        if isinstance(b, Vec) and a is UNDEF:
            return Vec([(s, self.mk_ite(c, UNDEF, x)) for s, x in b.e])
        if isinstance(b, Vec) and isinstance(a, N) and a.k == 'ic' and a.a[0] == 0:
            return Vec([(s, self.mk_ite(c, q(0), x)) for s, x in b.e])
        if isinstance(a, Vec) and isinstance(b, N) and b.k == 'ic' and b.a[0] == 0:
            return Vec([(s, self.mk_ite(c, x, q(0))) for s, x in a.e])
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if c is T:
                return a
            if c is F:
                return b
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a == b:
                return a
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            return PIte(c, a, b)
        raise Unsupported('merge %r %r' % (a, b))

    # ---- cfg
    def shape(self):
        """the loops of the function and, for each, its parts in an order that follows the control flow (inner loops as one part)"""
        f = self.f
        state, post, backs = {f.order[0]: 1}, [], []
        stack = [(f.order[0], iter(f.blocks[f.order[0]].succs))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(f.blocks[s].succs)))
                    break
                elif state[s] == 1:
                    backs.append((b, s))
            else:
                state[b] = 2
                post.append(b)
                stack.pop()
        rpo = {b: i for i, b in enumerate(reversed(post))}
        loops = {}
        for latch, head in backs:
            if not self.unroll and self.retry_loop(latch, head):
                self.backs.add((latch, head))
                continue
            body, st = loops.setdefault(head, {head}), [latch]
            while st:
                x = st.pop()
                if x not in body:
                    body.add(x)
                    st += [p for p in f.blocks[x].preds if p in rpo]
        for h, body in loops.items():
            if any(p not in body for x in body if x != h for p in f.blocks[x].preds if p in rpo):
                raise Unsupported('loop at block %s of %s has several entries' % (h, f.name))
        # innermost loop of each block
        byn = sorted(loops, key=lambda h: len(loops[h]))
        home = {b: next((h for h in byn if b in loops[h]), None) for b in rpo}
        up = {h: next((g for g in byn if g != h and h in loops[g]), None) for h in byn}
        self.chain = {}
        for b in rpo:
            c, h = [], home[b]
            while h is not None:
                c.append(h)
                h = up[h]
            self.chain[b] = tuple(reversed(c))
        self.loops = loops
        self.defdepth = {}
        if loops:
            for b in rpo:
                if self.chain[b]:
                    for ins in f.blocks[b].phis + f.blocks[b].insts + [f.blocks[b].term]:
                        if ins is not None and ins.dest is not None:
                            self.defdepth[ins.dest] = len(self.chain[b])

        def parts(region):
            """direct blocks and inner loops of a region, ordered"""
            blocks = [b for b in rpo if region is None or b in loops[region]]
            n = len(self.chain[region]) if region is not None else 0
            part = {b: (b if len(self.chain[b]) == n else ('loop', self.chain[b][n])) for b in blocks}
            succ = {}
            for b in blocks:
                for t in f.blocks[b].succs:
                    if t in part and t != region and (b, t) not in self.backs and part[t] != part[b]:
                        succ.setdefault(part[b], set()).add(part[t])
            out, seen = [], set()
            key = lambda p: rpo[p[1] if isinstance(p, tuple) else p]

            def visit(p):
                stack = [(p, iter(sorted(succ.get(p, ()), key=key, reverse=True)))]
                seen.add(p)
                while stack:
                    x, it = stack[-1]
                    for y in it:
                        if y not in seen:
                            seen.add(y)
                            stack.append((y, iter(sorted(succ.get(y, ()), key=key, reverse=True))))
                            break
                    else:
                        out.append(x)
                        stack.pop()
            first = part[region if region is not None else f.order[0]]
            visit(first)
            out.reverse()
            return out
        self.parts = {r: parts(r) for r in [None] + list(loops)}

    def retry_loop(self, latch, head):
        """a loop that tries again from the start: nothing is carried from one round to the next, so the state after it is the state after its last round"""
        f = self.f
        if self.depth:
            return False
        for ph in f.blocks[head].phis:
            if ph.ty not in (FLOAT, DOUBLE) and ph.ty[0] not in ('int', 'vec'):
                return False
        body, st = {head, latch}, [latch]
        while st:
            x = st.pop()
            if x == head:
                continue
            for p in f.blocks[x].preds:
                if p not in body:
                    body.add(p)
                    st.append(p)
        for x in body:
            for ins in f.blocks[x].insts:
                if ins.op == 'store' or ins.op == 'call' and not self.pure_call(ins):
                    return False
        # left through one edge, which every round reaches, and not inside a condition
        out = [x for x in body for s in f.blocks[x].succs if s not in body]
        if len(out) != 1 or len(f.blocks[out[0]].succs) != 2:
            return False
        x = out[0]
        if x != latch and x != head:
            seen, st = {head, x}, [head]
            while st:
                for s in f.blocks[st.pop()].succs:
                    if s in body and s not in seen:
                        seen.add(s)
                        st.append(s)
            if latch in seen:
                return False
        b = f.order[0]
        seen = set()
        while b != head:
            if b in seen or len(f.blocks[b].succs) != 1:
                return False
            seen.add(b)
            b = f.blocks[b].succs[0]
        self.heads.add(head)
        self.retry.add((x, next(s for s in f.blocks[x].succs if s in body)))
        return True

    def carried(self, ty):
        """a value from the previous round of a retry loop: no result may depend on it"""
        if ty[0] == 'vec':
            sz = self.m.size_align(ty[2])[0]
            return Vec([(sz, self.carried(ty[2])) for _ in range(ty[1])])
        self.fresh += 1
        return N('var' if ty in (FLOAT, DOUBLE) else 'ivar', 'carried#%d' % self.fresh, *(() if ty in (FLOAT, DOUBLE) else (ty[1],)))

    def no_carried(self, s):
        st = [s.ret] + list(self.assumed) + [c[1] for o in s.mem.values() for c in o.values()]
        seen = set()
        while st:
            n = st.pop()
            if isinstance(n, Vec):
                st += [x for _, x in n.e]
            elif isinstance(n, N) and n.id not in seen:
                seen.add(n.id)
                if n.k in ('var', 'ivar') and str(n.a[0]).startswith('carried#'):
                    raise Dependent('loop whose rounds depend on each other')
                st += n.a

    def pure_call(self, ins):
        if ins.extra[0] != 'glob':
            return False
        nm = ins.extra[1][1:].strip('"')
        m = re.match(r'(llvm\.[a-z.]+?)\.(f32|f64|v\d+f\d+)$', nm)
        return nm in MATH1 or nm in MATH2 or nm == 'rand' or any(nm.startswith(x) for x in IGNORE) or m is not None and m.group(1) in INTRIN

    def run(self):
        if not self.unroll and not self.depth:
            snap = (self.fresh, dict(self.gobj), dict(self.faults), list(self.allocs), list(self.calls), list(self.stores), list(self.reads), dict(self.lines), dict(self.last_store), list(self.truncs), dict(self.env), list(self.inner))
            try:
                return self.run1()
            except Dependent:
                # the rounds of a loop depend on each other: follow them one by one
                (self.fresh, self.gobj, self.faults, self.allocs, self.calls, self.stores, self.reads, self.lines, self.last_store, self.truncs, env, self.inner) = snap
                self.env = Env(self, env)
                self.assumed = []
                self.fobj, self.hobj = Obj('#faults', kind='local'), Obj('#heap', kind='local')
                self.unroll = True
        return self.run1()

    def run1(self):
        f = self.f
        self.backs, self.heads, self.retry = set(), set(), set()
        self.shape()
        self.preds = {}       # node -> nodes some state comes from
        self.bcond = {}
        self.idom, self.pos = {}, {}
        self.mem_out = {}
        self.rets = []
        first = (f.order[0], ())
        self.preds[first] = []
        self.region(None, ())
        if len(self.rets) != 1:
            raise Unsupported('%d return blocks in %s' % (len(self.rets), f.name))
        s = Summary()
        s.ret = self.rets[0][1]
        s.ret_dbg = self.rets[0][3]
        s.mem = self.rets[0][2]
        s.builder = self
        if self.backs:
            self.no_carried(s)
        return s

    def region(self, loop, ctx):
        """the parts of a loop body (one round) or of the function, in order"""
        for p in self.parts[loop]:
            if not isinstance(p, tuple):
                if (p, ctx) in self.preds:
                    self.block((p, ctx))
                continue
            h = p[1]
            k = 0
            while (h, ctx + (k,)) in self.preds:
                if k > ROUNDS:
                    raise Unsupported('loop at block %s of %s' % (h, self.f.name))
                self.region(h, ctx + (k,))
                k += 1

    def target(self, node, s):
        """the node an edge from node to block s leads to"""
        b, ctx = node
        n = len(self.chain[s])
        if s in self.loops and s in self.chain[b]:      # next round
            d = self.chain[b].index(s)
            return (s, ctx[:d] + (ctx[d] + 1,))
        c = ctx[:n]
        return (s, c + (0,) * (n - len(c)))

    def block(self, b):
        f = self.f
        blk = f.blocks[b[0]]
        ps = self.preds[b]
        self.pos[b] = len(self.pos)
        pos, idom = self.pos, self.idom
        if len(pos) > 60000:
            raise Unsupported('loops of %s are too long' % f.name)
        if not ps:
            idom[b] = b
            mem = dict(self.mem0)
        else:
            d = ps[0]
            for p in ps[1:]:
                x, y = d, p
                while x != y:
                    if pos[x] > pos[y]:
                        x = idom[x]
                    else:
                        y = idom[y]
                d = x
            idom[b] = d
            mem = dict(self.mem_out[ps[0]]) if len(ps) == 1 else None
        self.ctx = b[1]

        def phival(v, ty, p):
            self.ctx = p[1]
            try:
                return self.val(v, ty)
            finally:
                self.ctx = b[1]
        if b[0] in self.heads:
            for ph in blk.phis:
                self.env[ph.dest] = self.carried(ph.ty)
        elif len(ps) == 1:
            newv = {}
            for ph in blk.phis:
                for v, pb in ph.a:
                    if pb == ps[0][0]:
                        newv[ph.dest] = phival(v, ph.ty, ps[0])
            self.env.update(newv)
        elif ps:
            D = idom[b]
            can = self.reaching(b, D)
            # phis (simultaneous)
            newv = {}
            for ph in blk.phis:
                inc = {pb: v for v, pb in ph.a}
                newv[ph.dest] = self.gate(b, D, can, lambda p, inc=inc, ph=ph: phival(inc[p[0]], ph.ty, p))
            self.env.update(newv)
            # memory
            mems = [self.mem_out[p] for p in ps]
            mem = {}
            for mm in mems:
                for o in mm:
                    if o not in mem:
                        mem[o] = None
            for o in list(mem):
                cs = [mm.get(o, {}) for mm in mems]
                if all(c is cs[0] for c in cs):
                    mem[o] = cs[0]
                    continue
                offs = {}
                for c in cs:
                    for off, (s, v) in c.items():
                        offs.setdefault(off, set()).add(s)
                cells = {}
                for off in sorted(offs):
                    sz = offs[off]
                    if len(sz) > 1:
                        raise Unsupported('cells of different size merge')
                    s = next(iter(sz))
                    vals = {}
                    for p, c in zip(ps, cs):
                        if off in c:
                            vals[p] = c[off][1]
                        else:
                            ex = None
                            for c2 in cs:
                                if off in c2:
                                    ex = c2[off][1]
                            vals[p] = self.initlike(o, off, s, ex)
                    v0 = vals[ps[0]]
                    if all(self.same(v, v0) for v in vals.values()):
                        cells[off] = (s, v0)
                    else:
                        cells[off] = (s, self.gate(b, D, can, lambda p: vals[p]))
                mem[o] = cells
        for ins in blk.insts:
            self.insts += 1
            self.step(ins, mem)
        t = blk.term
        go = []
        if t.op == 'br' and t.a:
            c = self.val(t.a[0], ('int', 1))
            go = [(c, t.extra[0]), (None, t.extra[1])]
            for i in (0, 1):
                if (b[0], t.extra[i]) in self.retry:
                    self.assumed.append(not_(c) if i == 0 else c)
                    go = [(None, t.extra[1 - i])]
        elif t.op == 'br':
            go = [(None, t.extra[0])]
        elif t.op == 'switch':
            c = self.val(t.a[0], t.ty)
            go = [(icmp('eq', c, ic(k), t.ty[1] if t.ty[0] == 'int' else 32), s) for k, s in t.extra[1]] + [(None, t.extra[0])]
        elif t.op == 'ret':
            v = self.val(t.a[0], t.ty) if t.a else None
            self.rets.append((b, v, mem, t.dbg))
        out = self.bcond[b] = []
        for c, s in go:
            if c is F:
                continue
            n = self.target(b, s)
            out.append((None if c is T else c, n))
            ps = self.preds.setdefault(n, [])
            if b not in ps:
                ps.append(b)
            if c is T:
                break
        self.mem_out[b] = mem

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a == b
        return False

    def initlike(self, o, off, s, ex):
        if o is self.fobj:
            return F
        if o is self.hobj:
            return ic(1)
        if o.kind == 'local' or o.kind == 'heap':
            if isinstance(ex, (Ptr, PIte)):
                return UNDEF
            return UNDEF
        ty = FLOAT if s == 4 else DOUBLE
        nm = o.layout.get(off)
        if nm is not None and nm[1] in ('int', 'bool'):
            ty = ('int', 8 * s)
        elif isinstance(ex, N) and nm is None and ex.k in ('ic', 'ivar', 'iop', 'b2i'):
            ty = ('int', 8 * s)
        return self.init_cell(o, off, s, ty)

    def reaching(self, b, D):
        """nodes between D and b that can reach b"""
        can = set()
        st = list(self.preds[b])
        while st:
            x = st.pop()
            if x in can:
                continue
            can.add(x)
            if x != D:
                st.extend(self.preds[x])
        return can

    def gate(self, b, D, can, leaf):
        memo = {}
        todo = [D]
        while todo:
            x = todo[-1]
            if x in memo:
                todo.pop()
                continue
            wait = [s for _, s in self.bcond[x] if s != b and s in can and s not in memo]
            if wait:
                todo += wait
                continue
            r = BOT
            for c, s in reversed(self.bcond[x]):
                v = leaf(x) if s == b else memo[s] if s in can else BOT
                r = v if c is None else self.mk_ite(c, v, r)
            memo[x] = r
            todo.pop()
        return memo[D]

    # ---- instructions
    def real(self, v):
        if isinstance(v, N):
            if v.k in ('ic',):
                if v.a[0] == 0:
                    return q(0)
            return v
        raise Unsupported('real operand expected, got %r' % (v,))

    def step(self, ins, mem):
        op = ins.op
        if op == 'store':
            self.store(mem, self.val(ins.a[1], PTR), self.val(ins.a[0], ins.ty), ins.ty, ins.dbg)
            return
        if op == 'call':
            r = self.call(ins, mem)
        elif op == 'load':
            r = self.load(mem, self.val(ins.a[0], PTR), ins.ty, ins.dbg)
        elif op == 'alloca':
            sz = self.m.size_align(ins.ty)[0]
            r = Ptr(Obj('%s.local%s' % (self.prefix, ins.dest), kind='local', size=sz), 0)
        elif op == 'getelementptr':
            r = self.gep(self.val(ins.a[0], PTR), ins.ty, ins.extra)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.val(ins.a[0], ins.ty), self.val(ins.a[1], ins.ty)
            r = self.lift2(op, a, b)
        elif op == 'fneg':
            a = self.val(ins.a[0], ins.ty)
            r = Vec([(s, neg(self.real(x))) for s, x in a.e]) if isinstance(a, Vec) else neg(self.real(a))
        elif op == 'fcmp':
            a, b = self.real(self.val(ins.a[0], ins.ty)), self.real(self.val(ins.a[1], ins.ty))
            p = ins.extra
            if p in ('oeq', 'ueq'):
                r = cmp('eq', a, b)
            elif p in ('one', 'une'):
                r = not_(cmp('eq', a, b))
            elif p in ('olt', 'ult'):
                r = cmp('lt', a, b)
            elif p in ('ole', 'ule'):
                r = cmp('le', a, b)
            elif p in ('ogt', 'ugt'):
                r = cmp('lt', b, a)
            elif p in ('oge', 'uge'):
                r = cmp('le', b, a)
            elif p == 'ord':
                r = T
            elif p == 'uno':
                r = F
            elif p in ('true', 'false'):
                r = T if p == 'true' else F
            else:
                raise Unsupported('fcmp ' + p)
        elif op == 'icmp':
            a, b = self.val(ins.a[0], ins.ty), self.val(ins.a[1], ins.ty)
            r = self.icmp_any(ins.extra, a, b, ins.ty)
        elif op == 'select':
            c = self.val(ins.a[0], ins.extra)
            a, b = self.val(ins.a[1], ins.ty), self.val(ins.a[2], ins.ty)
            if isinstance(c, Vec):
                r = Vec([(x[0], self.mk_ite(cc[1], x[1], y[1])) for cc, x, y in zip(c.e, a.e, b.e)])
            else:
                r = self.mk_ite(c, a, b)
        elif op in ('fpext', 'fptrunc'):
            a = self.val(ins.a[0], ins.extra)
            if op == 'fptrunc' and not self.is_float:
                self.truncs.append(ins.dbg)
                r = tr32(a)
            else:
                r = a
        elif op in ('sitofp', 'uitofp'):
            a = self.val(ins.a[0], ins.extra)
            if ins.extra == ('int', 1):
                r = ite(a, q(-1 if op == 'sitofp' else 1), q(0))
            elif a.k == 'ic':
                r = q(a.a[0])
            else:
                r = i2f(a)
        elif op in ('fptosi', 'fptoui'):
            a = self.val(ins.a[0], ins.extra)
            if a.k == 'i2f':
                r = a.a[0]
            elif a.k == 'q':
                r = ic(int(a.a[0]))
            else:
                r = N('f2i', a)
        elif op in ('zext', 'sext'):
            a = self.val(ins.a[0], ins.extra)
            if ins.extra == ('int', 1):
                r = ite(a, ic(1 if op == 'zext' else -1), ic(0)) if a not in (T, F) else ic(0 if a is F else (1 if op == 'zext' else -1))
            else:
                r = a
        elif op == 'trunc':
            a = self.val(ins.a[0], ins.extra)
            if isinstance(a, Vec):
                n = self.m.size_align(ins.ty)[0]
                if a.e[0][0] == n:
                    r = a.e[0][1]
                else:
                    raise Unsupported('trunc of aggregate')
            elif ins.ty == ('int', 1):
                r = a if a in (T, F) else (T if a.k == 'ic' and a.a[0] & 1 else F if a.k == 'ic' else icmp('ne', iop('and', a, ic(1), 32), ic(0), 32))
                if isinstance(a, N) and a.k == 'ite' and a.a[1] is ic(1) and a.a[2] is ic(0):
                    r = a.a[0]
            else:
                r = a
        elif op == 'bitcast':
            a = self.val(ins.a[0], ins.extra)
            r = self.bitcast(a, ins.extra, ins.ty)
        elif op == 'freeze':
            r = self.val(ins.a[0], ins.ty)
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            a, b = self.val(ins.a[0], ins.ty), self.val(ins.a[1], ins.ty)
            r = self.intop(op, a, b, ins.ty)
        elif op == 'extractelement':
            a = self.val(ins.a[0], None)
            i = self.val(ins.a[1], ('int', 64))
            r = a.e[i.a[0]][1]
        elif op == 'insertelement':
            a = self.val(ins.a[0], ins.ty)
            e = self.val(ins.a[1], ins.ty[2])
            i = self.val(ins.a[2], ('int', 64))
            l = list(a.e)
            l[i.a[0]] = (l[i.a[0]][0], e)
            r = Vec(l)
        elif op == 'shufflevector':
            a = self.val(ins.a[0], ins.extra)
            b = self.val(ins.a[1], ins.extra)
            mk = ins.a[2]
            n = ins.extra[1]
            if mk[0] == 'zero':
                idx = [0] * ins.ty[1]
            elif mk[0] == 'undef':
                idx = [None] * ins.ty[1]
            else:
                idx = [x[1][1] if x[1][0] == 'ci' else None for x in mk[1]]
            es = self.m.size_align(ins.ty[2])[0]
            r = Vec([(es, UNDEF if i is None else (a.e[i][1] if i < n else b.e[i - n][1])) for i in idx])
        elif op == 'extractvalue':
            a = self.val(ins.a[0], ins.ty)
            for i in ins.extra:
                a = a.e[i][1]
            r = a
        elif op == 'insertvalue':
            a = self.val(ins.a[0], ins.ty)
            idx, t2 = ins.extra
            v = self.val(ins.a[1], t2)
            if len(idx) != 1:
                raise Unsupported('nested insertvalue')
            l = list(a.e)
            l[idx[0]] = (l[idx[0]][0], v)
            r = Vec(l)
        elif op in ('ptrtoint', 'inttoptr'):
            a = self.val(ins.a[0], ins.extra)
            r = a
        else:
            raise Unsupported('instruction ' + op)
        if ins.dest is not None:
            self.env[ins.dest] = r
            if isinstance(r, N) and r.dbg is None:
                r.dbg = ins.dbg

    def lift2(self, op, a, b):
        if isinstance(a, Vec) and isinstance(b, Vec):
            return Vec([(x[0], self.lift2(op, x[1], y[1])) for x, y in zip(a.e, b.e)])
        a, b = self.real(a), self.real(b)
        return {'fadd': add, 'fsub': sub, 'fmul': mul, 'fdiv': div, 'frem': lambda x, y: fn('fmod', x, y)}[op](a, b)

    def bitcast(self, a, t1, t2):
        if isinstance(a, Vec):
            if t2[0] == 'vec':
                es = self.m.size_align(t2[2])[0]
                if all(s == es for s, _ in a.e):
                    return a
                raise Unsupported('bitcast reshape')
            return a
        if t2[0] == 'vec':
            raise Unsupported('bitcast scalar to vector')
        return a

    def icmp_any(self, pred, a, b, ty):
        if ty == PTR or isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if isinstance(a, PIte):
                return ite(a.c, self.icmp_any(pred, a.a, b, ty), self.icmp_any(pred, a.b, b, ty))
            if isinstance(b, PIte):
                return ite(b.c, self.icmp_any(pred, a, b.a, ty), self.icmp_any(pred, a, b.b, ty))
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj is b.obj and not isinstance(a.off, N) and not isinstance(b.off, N):
                    e = {'eq': a.off == b.off, 'ne': a.off != b.off, 'ult': a.off < b.off, 'ule': a.off <= b.off,
                         'ugt': a.off > b.off, 'uge': a.off >= b.off}.get(pred)
                    if e is not None:
                        return T if e else F
                if a.obj is not b.obj and pred in ('eq', 'ne'):
                    return T if pred == 'ne' else F
            raise Unsupported('pointer comparison')
        if ty == ('int', 1):
            if pred == 'eq':
                return ite(a, b, not_(b))
            if pred == 'ne':
                return ite(a, not_(b), b)
            raise Unsupported('icmp i1 ' + pred)
        return icmp(pred, a, b, ty[1])

    def intop(self, op, a, b, ty):
        if ty == ('int', 1):
            if op in ('and', 'mul'):
                return and_(a, b)
            if op == 'or':
                return or_(a, b)
            if op in ('xor', 'add', 'sub'):
                return ite(a, not_(b), b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, Vec) and isinstance(b, N) and b.k == 'ic':
            if op == 'lshr':
                sh = b.a[0] // 8
                l = list(a.e)
                while l and sh >= l[0][0]:
                    sh -= l[0][0]
                    l.pop(0)
                if sh == 0:
                    return Vec(l + [(4, ic(0))]) if len(l) > 0 else ic(0)
            raise Unsupported('integer op on aggregate')
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)) or isinstance(a, Vec) or isinstance(b, Vec):
            raise Unsupported('integer op on pointer')
        return iop(op, a, b, ty[1])

    def call(self, ins, mem):
        c = ins.extra
        if c[0] != 'glob':
            raise Unsupported('indirect call')
        name = c[1][1:].strip('"')
        for pre in IGNORE:
            if name.startswith(pre):
                return UNDEF
        if name.startswith('uninit.'):
            return self.undef(ins.ty)
        if name.startswith('llvm.'):
            m = re.match(r'(llvm\.[a-z.]+?)\.(f32|f64|v\d+f\d+)$', name)
            if m and m.group(1) in INTRIN:
                args = [self.real(self.val(v, t)) for t, v in ins.a]
                return mathfn(INTRIN[m.group(1)], args)
            if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
                d = self.val(ins.a[0][1], PTR)
                s = self.val(ins.a[1][1], PTR)
                n = self.val(ins.a[2][1], ('int', 64))
                if n.k != 'ic':
                    raise Unsupported('memcpy of variable size')
                return self.memcpy(mem, d, s, n.a[0], ins.dbg)
            if name.startswith('llvm.memset'):
                d = self.val(ins.a[0][1], PTR)
                v = self.val(ins.a[1][1], ('int', 8))
                n = self.val(ins.a[2][1], ('int', 64))
                if v.k == 'ic' and v.a[0] == 0 and n.k == 'ic' and isinstance(d, Ptr) and not isinstance(d.off, N):
                    unit = (self.unit(d.obj) or (4 if self.is_float else 8))
                    o = 0
                    while o < n.a[0]:
                        u = min(unit, n.a[0] - o)
                        self.cell_store(mem, d.obj, d.off + o, u, q(0) if u == (4 if self.is_float else 8) else ic(0), ins.dbg)
                        o += u
                    return UNDEF
                raise Unsupported('memset')
            m = re.match(r'llvm\.(umin|umax|smin|smax|abs)\.i(\d+)$', name)
            if m:
                a = [self.val(v, t) for t, v in ins.a]
                wd = int(m.group(2))
                if m.group(1) == 'abs':
                    return ite(icmp('slt', a[0], ic(0), wd), iop('sub', ic(0), a[0], wd), a[0])
                pr = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[m.group(1)]
                return ite(icmp(pr, a[0], a[1], wd), a[0], a[1])
            if name.startswith('llvm.threadlocal.address'):
                return self.val(ins.a[0][1], PTR)
            if name.startswith('llvm.expect'):
                return self.val(ins.a[0][1], ins.a[0][0])
            m = re.match(r'llvm\.(fma|fmuladd)\.', name)
            if m:
                a = [self.real(self.val(v, t)) for t, v in ins.a]
                return a[0] * a[1] + a[2]
            raise Unsupported('intrinsic ' + name)
        if name in MATH1 or name in MATH2:
            args = [self.val(v, t) for t, v in ins.a]
            fnm = MATH1.get(name) or MATH2.get(name)
            if fnm != 'ldexp':
                args = [self.real(x) for x in args]
            if name in FLOATFN and not self.is_float:
                self.truncs.append(ins.dbg)
                return tr32(mathfn(fnm, args))
            return mathfn(fnm, args)
        if name == 'rand':
            self.fresh += 1
            self.calls.append(('rand', ins.dbg))
            return N('ivar', 'rand#%d' % self.fresh, 31)
        if name in ('_Znwm', '_Znam', 'malloc'):
            self.fresh += 1
            self.calls.append(('alloc', ins.dbg))
            n = self.val(ins.a[0][1], ins.a[0][0]) if ins.a and isinstance(ins.a[0], tuple) else None
            o = Obj('heap%d' % self.fresh, kind='heap', size=n.a[0] if isinstance(n, N) and n.k == 'ic' else None)
            o.arr = name == '_Znam'
            o.dbg = ins.dbg
            cells = dict(mem.get(self.hobj, {}))
            cells[o.name] = (4, ic(0))
            mem[self.hobj] = cells
            self.allocs.append(o)
            return Ptr(o, 0)
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            self.calls.append(('free', ins.dbg))
            t, v = ins.a[0] if ins.a[0][0] == PTR else (PTR, ins.a[0][1])
            self.free(mem, self.val(v, PTR), name.startswith('_Zda'), T, ins.dbg)
            return UNDEF
        f = self.m.funcs.get(c[1]) or self.m.funcs.get(c[1][1:]) or self.m.funcs.get(name)
        if f is not None and f.blocks:
            return self.nested(f, ins, mem)
        raise Unsupported('call to ' + name)

    def nested(self, f, ins, mem):
        """a call the inliner left in place (recursion): evaluated with its arguments"""
        if self.depth > 12:
            raise Unsupported('recursion of ' + f.name)
        if any('byval' in str(p[2]) for p in f.params):
            raise Unsupported('argument by value in memory')
        self.fresh += 1
        b = Builder(self.m, f, [self.val(v, t) for t, v in ins.a], self.is_float, self.global_mem, '%s.call%d' % (self.prefix, self.fresh), mem, self.init_mode)
        b.depth = self.depth + 1
        b.gobj, b.faults, b.allocs, b.fobj, b.hobj, b.fresh = self.gobj, self.faults, self.allocs, self.fobj, self.hobj, self.fresh
        b.calls, b.stores, b.reads, b.lines, b.last_store, b.truncs = self.calls, self.stores, self.reads, self.lines, self.last_store, self.truncs
        s = b.run()
        self.fresh = b.fresh
        self.insts += b.insts
        self.inner.append(f)
        self.inner += b.inner
        mem.clear()
        mem.update(s.mem)
        return UNDEF if s.ret is None else s.ret

    def memcpy(self, mem, d, s, n, dbg):
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)):
            raise Unsupported('memcpy through gated pointer')
        if isinstance(d.off, N) or isinstance(s.off, N):
            raise Unsupported('memcpy symbolic offset')
        src = mem.get(s.obj, {})
        lay = s.obj.layout or d.obj.layout
        unit = self.unit(s.obj) or self.unit(d.obj) or (4 if self.is_float else 8)
        o = 0
        out = []
        while o < n:
            c = src.get(s.off + o)
            if c is not None:
                out.append((o, c[0], c[1]))
                o += c[0]
            else:
                nm = s.obj.layout.get(s.off + o)
                u = unit
                if s.obj.kind == 'global':
                    g = self.global_mem.get(s.obj.name)
                    if g and (s.off + o) in g:
                        u = g[s.off + o][0]
                u = self.gap(src, s.off + o, min(u, n - o))
                ty = FLOAT if u == 4 else DOUBLE
                if nm is None and s.obj.kind == 'arg':
                    # a cell that is not one of the named scalars: flag word or padding
                    u = min(4, u)
                    ty = ('int', 8 * u)
                elif nm is not None and nm[1] in ('int', 'bool'):
                    ty = ('int', 8 * u)
                out.append((o, u, self.init_cell(s.obj, s.off + o, u, ty)))
                o += u
        for o, sz, v in out:
            self.cell_store(mem, d.obj, d.off + o, sz, v, dbg)
        return UNDEF


def mathfn(name, args):
    if name == 'fabs':
        return ite(args[0] < 0, -args[0], args[0])
    if name == 'fmin':
        return ite(args[0] < args[1], args[0], args[1])
    if name == 'fmax':
        return ite(args[0] > args[1], args[0], args[1])
    if name == 'hypot':
        return sqrt(args[0] * args[0] + args[1] * args[1])
    if name == 'pow' and args[1].k == 'q' and args[1].a[0].denominator == 1 and 0 <= args[1].a[0] <= 12:
        r = q(1)
        for _ in range(int(args[1].a[0])):
            r = r * args[0]
        return r
    if name == 'pow' and args[1].k == 'q' and args[1].a[0] == Fraction(1, 2):
        return sqrt(args[0])
    if name == 'pow' and args[0].k == 'q' and args[0].a[0] == 2:
        return fn('exp2', args[1])
    if name == 'copysign':
        m = ite(args[0] < 0, -args[0], args[0])
        return ite(args[1] < 0, -m, m)
    if name == 'atan':
        return fn('atan2', args[0], q(1))
    if name == 'round':
        return ite(args[0] < 0, -fn('floor', -args[0] + q(Fraction(1, 2))), fn('floor', args[0] + q(Fraction(1, 2))))
    if name == 'tan':
        return fn('sin', args[0]) / fn('cos', args[0])
    return fn(name, *args)


def _wrap(v, wd):
    v &= (1 << wd) - 1
    return v


def _signed(v, wd):
    v &= (1 << wd) - 1
    return v - (1 << wd) if v >> (wd - 1) else v


def i2f(a):
    if a.k == 'ite':
        return ite(a.a[0], i2f(a.a[1]), i2f(a.a[2]))
    if a.k == 'ic':
        return q(a.a[0])
    return N('i2f', a)


def linear(n):
    """(k, {id: (node, m)}): the integer k + sum of m * node"""
    if n.k == 'ic':
        return n.a[0], {}
    if n.k == 'iop' and n.a[0] in ('add', 'sub', 'mul', 'shl'):
        k1, d1 = linear(n.a[1])
        k2, d2 = linear(n.a[2])
        op = n.a[0]
        if op == 'shl' and not d2 and 0 <= k2 < 16:
            op, k2 = 'mul', 1 << k2
        if op in ('add', 'sub'):
            s = 1 if op == 'add' else -1
            d = dict(d1)
            for i, (x, m) in d2.items():
                m = (d[i][1] if i in d else 0) + s * m
                d[i] = (x, m)
                if m == 0:
                    del d[i]
            return k1 + s * k2, d
        if op == 'mul' and (not d1 or not d2):
            if d1:
                k1, d1, k2, d2 = k2, d2, k1, d1
            return k1 * k2, {i: (x, m * k1) for i, (x, m) in d2.items()} if k1 else {}
    return 0, {n.id: (n, 1)}


REALS = ('var', 'q', '+', '-', '*', '/', 'neg', 'fn', 'pi', 'i2f')


def real_of(n):
    """the real number whose bits the integer n is, or None"""
    while isinstance(n, N) and n.k == 'ite':
        n = n.a[1] if n.a[1].k not in ('undef', 'bot') else n.a[2]
    return isinstance(n, N) and n.k in REALS


def bits_cmp(pred, a, b, wd):
    """comparison of the bits of a real with an integer constant: its sign"""
    v = _signed(b.a[0], wd) if b.k == 'ic' else None
    if v is None:
        raise Unsupported('comparison of the bits of a number')
    s = {('slt', 0): 1, ('sle', -1): 1, ('sgt', -1): 0, ('sge', 0): 0}.get((pred, v))
    if s is None and v == -(1 << (wd - 1)):
        s = {'uge': 1, 'ult': 0}.get(pred)
    if s is None and v == (1 << (wd - 1)) - 1:
        s = {'ugt': 1, 'ule': 0}.get(pred)
    if s is None:
        raise Unsupported('comparison of the bits of a number')
    c = cmp('lt', a, q(0))
    return c if s else not_(c)


def bits_op(op, a, b, wd):
    if b.k == 'ic':
        v = _wrap(b.a[0], wd)
        top = 1 << (wd - 1)
        sign = ite(cmp('lt', a, q(0)), ic(1), ic(0))
        if op == 'and' and v == top - 1:
            return vabs(a)
        if op == 'or' and v == top:
            return neg(vabs(a))
        if op == 'xor' and v == top:
            return neg(a)
        if op == 'and' and v == top:
            return ite(cmp('lt', a, q(0)), ic(-top), ic(0))
        if op == 'lshr' and v == wd - 1:
            return sign
        if op == 'ashr' and v == wd - 1:
            return ite(cmp('lt', a, q(0)), ic(-1), ic(0))
    raise Unsupported('arithmetic on the bits of a number')


_leaves = {}


_inputs = {}


def has_input(n):
    """does the value depend on an argument"""
    r = _inputs.get(n.id)
    if r is None:
        r = n.k in ('var', 'ivar') or any(has_input(x) for x in n.a if isinstance(x, N)) or any(isinstance(x, (tuple, list)) and any(isinstance(y, N) and has_input(y) for y in x) for x in n.a)
        _inputs[n.id] = r
    return r


def const_leaves(n):
    """the constants a gated integer can be, or None"""
    r = _leaves.get(n.id, 0)
    if r != 0:
        return r
    if n.k == 'ic':
        r = frozenset([n.a[0]])
    elif n is UNDEF:
        r = frozenset()
    elif n.k == 'ite':
        x, y = const_leaves(n.a[1]), const_leaves(n.a[2])
        r = None if x is None or y is None else x | y
        if r is not None and len(r) > 64:
            r = None
    else:
        r = None
    _leaves[n.id] = r
    return r


def tree_apply(f, a, b, memo):
    """f on two gated values, gate by gate (gates with the same condition stay paired)"""
    k = (a.id, b.id)
    r = memo.get(k)
    if r is not None:
        return r
    if a.k == 'ite' and b.k == 'ite' and a.a[0] is not b.a[0]:
        c = max(a.a[0], b.a[0], key=lambda n: n.id)
    else:
        c = a.a[0] if a.k == 'ite' else b.a[0] if b.k == 'ite' else None
    if c is None:
        r = f(a, b)
    else:
        a1, a2 = (a.a[1], a.a[2]) if a.k == 'ite' and a.a[0] is c else (a, a)
        b1, b2 = (b.a[1], b.a[2]) if b.k == 'ite' and b.a[0] is c else (b, b)
        r = ite(c, tree_apply(f, a1, b1, memo), tree_apply(f, a2, b2, memo))
    memo[k] = r
    return r


def iop(op, a, b, wd):
    if a is BOT or b is BOT:
        return BOT
    if a.k == 'ic' and b.k == 'ic':
        x, y = a.a[0], b.a[0]
        try:
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: _wrap(x, wd) >> y, 'ashr': lambda: _signed(x, wd) >> y,
                 'sdiv': lambda: int(Fraction(x, y)), 'udiv': lambda: _wrap(x, wd) // _wrap(y, wd),
                 'srem': lambda: x - y * int(Fraction(x, y)), 'urem': lambda: _wrap(x, wd) % _wrap(y, wd)}[op]()
        except ZeroDivisionError:
            return UNDEF
        return ic(_signed(r, wd))
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if real_of(a) or real_of(b):
        return bits_op(op, a, b, wd) if real_of(a) else bits_op(op, b, a, wd) if op in ('and', 'or', 'xor') else bits_op(None, a, b, wd)
    if (a.k == 'ite' or b.k == 'ite') and const_leaves(a) is not None and const_leaves(b) is not None:
        return tree_apply(lambda x, y: iop(op, x, y, wd), a, b, {})
    if b.k == 'ic' and b.a[0] == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
        return a
    if a is b and op in ('and', 'or'):
        return a
    return N('iop', op, a, b, wd)


def icmp(pred, a, b, wd):
    if a is BOT or b is BOT:
        return BOT
    if a.k == 'ic' and b.k == 'ic':
        x, y = _signed(a.a[0], wd), _signed(b.a[0], wd)
        ux, uy = _wrap(x, wd), _wrap(y, wd)
        r = {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y, 'ult': ux < uy, 'ule': ux <= uy,
             'ugt': ux > uy, 'uge': ux >= uy}[pred]
        return T if r else F
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if real_of(a) or real_of(b):
        return bits_cmp(pred, a, b, wd)
    if a.k == 'ite' and b.k == 'ic' or b.k == 'ite' and a.k == 'ic' or (a.k == 'ite' and b.k == 'ite' and const_leaves(a) is not None and const_leaves(b) is not None):
        return tree_apply(lambda x, y: icmp(pred, x, y, wd), a, b, {})
    if pred == 'ne':
        return not_(icmp('eq', a, b, wd))
    if pred in ('sgt', 'ugt'):
        return N('cmpi', pred[0] + 'lt', b, a, wd)
    if pred in ('sge', 'uge'):
        return not_(N('cmpi', pred[0] + 'lt', a, b, wd))
    if pred in ('sle', 'ule'):
        return not_(N('cmpi', pred[0] + 'lt', b, a, wd))
    if pred == 'eq' and a.k == 'ic':
        a, b = b, a
    return N('cmpi', pred, a, b, wd)
