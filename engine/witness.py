"""Is a region of the partition inhabited?  A mismatch between computed and specified normal form only counts
where the region it was found in has a point.  linear_empty() decides this for linear conditions; for the rest a
sample point of the region is constructed (projection onto its equations, then polished to 40 digits), and both
normal forms' graphs take different values at it.  This evaluates the algebraic expressions, not the program."""
import math
import random
import time
from fractions import Fraction
from decimal import Decimal, getcontext
import poly as P
import vg
import norm
from vg import N
from norm import NEG, ZER, POS, RF

getcontext().prec = 50
getcontext().Emax = 999999
getcontext().Emin = -999999


class NoValue(Exception):
    """the expression has no value at this point (division by zero, undefined cell)"""


class Cannot(Exception):
    """the evaluator does not know this construct"""


class FloatArith:
    tie = 1e-11
    unit = 1
    small = Fraction(1, 10 ** 12)
    pi = math.pi

    @staticmethod
    def const(q):
        return float(q)

    sqrt = staticmethod(math.sqrt)
    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    exp = staticmethod(math.exp)
    log = staticmethod(math.log)
    atan2 = staticmethod(math.atan2)
    floor = staticmethod(lambda x: float(math.floor(x + 1e-11)))


def _dpi():
    getcontext().prec += 5
    lasts, t, s, n, na, d, da = 0, Decimal(3), 3, 1, 0, 0, 24
    while s != lasts:
        lasts = s
        n, na = n + na, na + 8
        d, da = d + da, da + 32
        t = (t * n) / d
        s += t
    getcontext().prec -= 5
    return +s


class DecArith:
    tie = Decimal('1e-24')
    small = Fraction(1, 10 ** 12)
    pi = _dpi()

    @staticmethod
    def const(q):
        q = Fraction(q)
        return Decimal(q.numerator) / Decimal(q.denominator)

    @staticmethod
    def sqrt(x):
        return x.sqrt()

    @staticmethod
    def exp(x):
        return x.exp()

    @staticmethod
    def log(x):
        return x.ln()

    @classmethod
    def cos(cls, x):
        return cls.sin(x + cls.pi / 2)

    @classmethod
    def sin(cls, x):
        if abs(x) > Decimal(10) ** 15:
            raise Cannot('angle')
        x = x - 2 * cls.pi * (x / (2 * cls.pi)).to_integral_value()
        i, lasts, s, f, num, sg = 1, 0, x, 1, x, 1
        while s != lasts:
            lasts = s
            i += 2
            f *= i * (i - 1)
            num *= x * x
            sg = -sg
            s += num / f * sg
            if i > 400:
                break
        return +s

    @classmethod
    def atan2(cls, y, x):
        if x == 0 and y == 0:
            return Decimal(0)
        a = Decimal(math.atan2(float(y / max(abs(x), abs(y))), float(x / max(abs(x), abs(y)))))
        h = (x * x + y * y).sqrt()
        for _ in range(3):
            s, c = cls.sin(a), cls.cos(a)
            a += (y * c - x * s) / h
        return a

    unit = 1

    @classmethod
    def floor(cls, x):
        return (x + cls.tie).to_integral_value(rounding='ROUND_FLOOR')


class FineArith(DecArith):
    """for points at which lengths are tiny: ties are relative only, used with 130 digits"""
    tie = Decimal('1e-75')
    unit = 0
    small = Fraction(1, 10 ** 300)


class FinerArith(FineArith):
    """the same with 220 digits"""
    tie = Decimal('1e-130')


class digits:
    def __init__(self, prec, A):
        self.prec, self.A = prec, A

    def __enter__(self):
        self.old = getcontext().prec
        getcontext().prec = self.prec
        if 'pi' not in self.A.__dict__:
            self.A.pi = _dpi()

    def __exit__(self, *a):
        getcontext().prec = self.old


def apply(A, name, a):
    x = a[0]
    if name == 'sqrt':
        if x < 0:
            if abs(x) < A.tie * 1000:
                return x * 0
            raise NoValue('sqrt')
        return A.sqrt(x)
    if name in ('sin', 'cos'):
        return getattr(A, name)(x)
    if name == 'tan':
        return A.sin(x) / A.cos(x)
    if name in ('acos', 'asin'):
        one = A.const(1)
        if abs(x) > one:
            if abs(x) - one > A.tie * 1000:
                raise NoValue(name)
            x = one if x > 0 else -one
        r = A.sqrt(one - x * x)
        return A.atan2(r, x) if name == 'acos' else A.atan2(x, r)
    if name == 'atan2':
        return A.atan2(x, a[1])
    if name == 'atan':
        return A.atan2(x, A.const(1))
    if name == 'exp':
        return A.exp(x)
    if name == 'exp2':
        return A.exp(x * A.log(A.const(2)))
    if name == 'log':
        if x <= 0:
            raise NoValue('log')
        return A.log(x)
    if name == 'pow':
        if x < 0:
            if a[1] == a[1] // 1 and abs(a[1]) < 100:
                return x ** int(a[1])
            raise NoValue('pow')
        if x == 0:
            if a[1] <= 0:
                raise NoValue('pow')
            return x
        return A.exp(a[1] * A.log(x))
    if name == 'floor':
        return A.floor(x)
    if name == 'ceil':
        return -A.floor(-x)
    if name == 'trunc':
        return A.floor(x) if x >= 0 else -A.floor(-x)
    if name == 'frac':
        return x - A.floor(x)
    if name == 'fmod':
        if a[1] == 0:
            raise NoValue('fmod')
        z = x / a[1]
        return x - a[1] * (A.floor(z) if z >= 0 else -A.floor(-z))
    if name == 'tr32':
        f = float(x)
        m, e = math.frexp(f)
        return A.const(Fraction(round(m * 2 ** 24)) * Fraction(2) ** (e - 24))
    raise Cannot('function ' + name)


class Eval:
    """the value graph at one point"""

    def __init__(self, A, reals, ints, bools, cut=None):
        self.A, self.reals, self.ints, self.bools = A, reals, ints, bools
        self.memo = {}
        self.unknown = set()
        self.cutname = cut or {}
        self.work = 0

    def tied(self, x, y):
        return abs(x - y) <= self.A.tie * (self.A.unit + max(abs(x), abs(y)))

    def ev(self, n):
        """real value of n; integers and booleans as their own types"""
        memo = self.memo
        st = [n]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            self.work += 1
            if self.work > 200000:
                raise Cannot('too large')
            k = x.k
            if k == 'ite':
                c = x.a[0]
                if c.id not in memo:
                    st.append(c)
                    continue
                cv = memo[c.id]
                if isinstance(cv, NoValue):
                    memo[x.id] = cv
                    continue
                t = x.a[1] if cv else x.a[2]
                if t.id not in memo:
                    st.append(t)
                    continue
                memo[x.id] = memo[t.id]
                continue
            if k in ('and', 'or'):
                a = x.a[0]
                if a.id not in memo:
                    st.append(a)
                    continue
                v = memo[a.id]
                if isinstance(v, NoValue) or v is (k == 'or'):
                    memo[x.id] = v
                    continue
                b = x.a[1]
                if b.id not in memo:
                    st.append(b)
                    continue
                memo[x.id] = memo[b.id]
                continue
            kids = [c for c in x.a if isinstance(c, N)]
            pend = [c for c in kids if c.id not in memo]
            if pend:
                st.extend(pend)
                continue
            bad = next((memo[c.id] for c in kids if isinstance(memo[c.id], NoValue)), None)
            if bad is not None:
                memo[x.id] = bad
                continue
            try:
                memo[x.id] = self.node(x, [memo[c.id] for c in kids])
            except NoValue as e:
                memo[x.id] = e
            except (OverflowError, ArithmeticError, ValueError) as e:
                memo[x.id] = NoValue(str(e))
        return memo[n.id]

    def node(self, n, a):
        k, A = n.k, self.A
        if k == 'q':
            return A.const(n.a[0])
        if k == 'var':
            if n.a[0] not in self.reals:
                self.unknown.add(n.a[0])
                raise NoValue('unset')
            return self.reals[n.a[0]]
        if k == 'pi':
            return A.pi
        if k == 'huge':
            return A.const({'inf': Fraction(10) ** 90, 'max': Fraction(10) ** 60, 'min': A.small}[n.a[0]])
        if k in ('undef', 'bot', 'nan'):
            raise NoValue(k)
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'not':
            return not a[0]
        if k == 'bvar':
            return self.bools.get(n.a[0], False)
        if k == '+':
            return self.snap(a[0] + a[1], a)
        if k == '-':
            return self.snap(a[0] - a[1], a)
        if k == '*':
            return a[0] * a[1]
        if k == 'neg':
            return -a[0]
        if k == '/':
            if a[1] == 0:
                raise NoValue('division by zero')
            return a[0] / a[1]
        if k == 'fn':
            return apply(A, n.a[0], a)
        if k == 'cmp':
            x, y = a
            t = self.tied(x, y)
            return {'lt': x < y and not t, 'le': x < y or t, 'eq': t}[n.a[0]]
        if k == 'cmpi':
            wd = n.a[3] if len(n.a) > 3 else 32
            x, y = int(a[0]), int(a[1])
            sx, sy = vg._signed(x, wd), vg._signed(y, wd)
            ux, uy = vg._wrap(x, wd), vg._wrap(y, wd)
            return {'eq': ux == uy, 'ne': ux != uy, 'slt': sx < sy, 'ult': ux < uy}[n.a[0]]
        if k == 'ic':
            return n.a[0]
        if k == 'ivar':
            if n.a[0] not in self.ints:
                self.unknown.add('int ' + n.a[0])
                raise NoValue('unset')
            return self.ints[n.a[0]]
        if k == 'iop':
            r = vg.iop(n.a[0], vg.ic(int(a[0])), vg.ic(int(a[1])), n.a[3])
            if r.k != 'ic':
                raise NoValue('integer')
            return r.a[0]
        if k == 'i2f':
            return A.const(int(a[0]))
        if k == 'f2i':
            return int(apply(A, 'trunc', a))
        raise Cannot('node ' + k)

    def snap(self, r, a):
        """a sum that cancels to rounding noise is zero"""
        m = max(abs(a[0]), abs(a[1]))
        return r * 0 if r and abs(r) <= self.A.tie * m else r


class Region:
    """numeric view of the facts of a cell"""

    def __init__(self, ctx, cutnodes):
        self.ctx, self.sp, self.cutnodes = ctx, ctx.sp, cutnodes
        self.ints = {}
        self.intnames = set()
        for (nm, b), v in ctx.bits.items():
            self.ints[nm] = self.ints.get(nm, 0) | v << b
        self.ints.update(ctx.ints)

    def atom(self, i, A, pt, memo, stack=()):
        if i in memo:
            return memo[i]
        at = self.sp.atoms[i]
        if i in stack:
            raise Cannot('cycle')
        if at.kind == 'var' and at.name not in self.cutnodes:
            if at.name == 'pi':
                r = A.pi
            elif at.name.startswith('#'):
                r = A.const({'#inf': Fraction(10) ** 90, '#max': Fraction(10) ** 60, '#min': A.small}[at.name])
            elif i in self.ctx.subst:
                r = self.poly(self.ctx.subst[i], A, pt, memo, stack + (i,))
            elif i in self.ctx.rsubst:
                r = self.rf(self.ctx.rsubst[i], A, pt, memo, stack + (i,))
            else:
                r = pt[at.name]
        elif at.kind == 'var':
            env = {}
            for a in self.sp.atoms:
                if a.kind == 'var' and a.name not in self.cutnodes and a.name != 'pi' and not a.name.startswith('#'):
                    env[a.name] = self.atom(a.id, A, pt, memo, stack + (i,))
            r = Eval(A, env, self.ints, self.ctx.bools).ev(self.cutnodes[at.name])
            if isinstance(r, NoValue):
                raise r
        else:
            nm = at.name.split('(')[0]
            r = apply(A, nm, [self.rf(x, A, pt, memo, stack + (i,)) for x in at.args])
        memo[i] = r
        return r

    def poly(self, p, A, pt, memo, stack=()):
        s = A.const(0)
        for m, c in p.items():
            t = A.const(c)
            for a, e in m:
                t = t * self.atom(a, A, pt, memo, stack) ** e
            s = s + t
        return s

    def rf(self, r, A, pt, memo, stack=()):
        v = self.poly(r.n, A, pt, memo, stack)
        for p, e in r.d.values():
            d = self.poly(p, A, pt, memo, stack)
            if d == 0:
                raise NoValue('division by zero')
            v = v / d ** e
        return v

    def free(self):
        return [a.name for a in self.sp.atoms if a.kind == 'var' and a.name != 'pi' and not a.name.startswith('#') and a.name not in self.cutnodes
                and a.id not in self.ctx.subst and a.id not in self.ctx.rsubst]

    def leaves(self):
        return [a for a in self.sp.atoms if a.kind == 'var' and a.name != 'pi' and not a.name.startswith('#') and a.name not in self.cutnodes]

    def equations(self):
        z = [p for p, m in self.ctx.signs.values() if m == ZER]
        for i, s in self.ctx.subst.items():
            if self.sp.atoms[i].kind != 'var' or self.sp.atoms[i].name in self.cutnodes:
                z.append(P.sub(P.var(i), s))
        return z

    def residual(self, A, pt, margin):
        memo = {}
        r = [self.poly(p, A, pt, memo) for p in self.eqs]
        for p, m in self.ineqs:
            v = self.poly(p, A, pt, memo)
            if m & NEG and not m & POS:
                v = -v
            g = margin if not m & ZER else 0.0
            r.append(min(0.0, v - g))
        return r

    def prepare(self):
        self.eqs = self.equations()
        self.ineqs = [(p, m) for p, m in self.ctx.signs.values() if m in (NEG, POS, NEG | ZER, POS | ZER)]
        for a in self.leaves():
            if a.mask in (NEG, POS, NEG | ZER, POS | ZER):
                self.ineqs.append((P.var(a.id), a.mask))


def solve(J, r, lam):
    """least-squares step: (J^T J + lam I) d = -J^T r"""
    n = len(J[0])
    M = [[sum(row[i] * row[j] for row in J) + (lam if i == j else 0.0) for j in range(n)] + [-sum(row[i] * v for row, v in zip(J, r))] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(M[k][i]))
        if abs(M[p][i]) < 1e-300:
            return None
        M[i], M[p] = M[p], M[i]
        for k in range(i + 1, n):
            f = M[k][i] / M[i][i]
            if f:
                for j in range(i, n + 1):
                    M[k][j] -= f * M[i][j]
    x = [0.0] * n
    for i in range(n - 1, -1, -1):
        x[i] = (M[i][n] - sum(M[i][j] * x[j] for j in range(i + 1, n))) / M[i][i]
    return x


NICE = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, -3.0, 1.5, -1.5, 0.25, 4.0, 0.75, -0.75]


def draw(rng, mask, mode):
    for _ in range(50):
        v = rng.choice(NICE) if mode == 0 else round(rng.uniform(-3, 3), 3) if mode == 1 else round(rng.gauss(0, 1) * 10 ** rng.uniform(-2, 2), 6)
        if (POS if v > 0 else NEG if v < 0 else ZER) & mask:
            return v
    return 1.0 if mask & POS else -1.0 if mask & NEG else 0.0


def check_point(A, reals, ints, bools, pre, kind, got, want, tol=None, floor=None):
    """-> (mismatch?, shown values); floor: differences are judged relative to the values, above this noise"""
    e = Eval(A, reals, ints, bools)
    p = e.ev(pre)
    if e.unknown or p is not True:
        return False, None
    if kind == 'holds':
        v = e.ev(got)
        if e.unknown:
            return False, None
        return v is not True, (v, True)
    g = e.ev(got) if isinstance(got, N) else NoValue('not a scalar')
    x = e.ev(want)
    if e.unknown:
        return False, None
    gb, xb = isinstance(g, NoValue), isinstance(x, NoValue)
    if gb or xb:
        return gb and not xb or xb and not gb, (g, x)
    if isinstance(g, (bool, int)) or isinstance(x, (bool, int)):
        return int(g) != int(x), (g, x)
    lim = (A.const(Fraction(1, 10 ** 9)) if A is FloatArith else A.const(Fraction(1, 10 ** 18)))
    if tol:
        lim = A.const(Fraction(tol)) * 4
    if floor is not None:
        return abs(g - x) > Decimal('1e-6') * (abs(g) + abs(x)) + floor and (not tol or abs(g - x) > lim), (g, x)
    return abs(g - x) > lim * (1 + abs(g) + abs(x)), (g, x)


def describe(reals, ints, sh):
    def f(v):
        if isinstance(v, NoValue):
            return 'no value (%s)' % v
        if isinstance(v, (bool, int)):
            return str(v)
        return '%.7g' % float(v)
    return 'e.g. at %s: %s, expected %s' % (', '.join(['%s=%s' % (k, f(v)) for k, v in sorted(reals.items())] + ['%s=%s' % kv for kv in sorted(ints.items())])[:500], f(sh[0]), f(sh[1]))


def names(*nodes):
    r, i, seen, st = set(), set(), set(), [n for n in nodes if isinstance(n, N)]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.k == 'var':
            r.add(n.a[0])
        elif n.k == 'ivar':
            i.add(n.a[0])
        st.extend(x for x in n.a if isinstance(x, N))
    return r, i


def thresholds(*nodes):
    """very small and very large constants of the expressions: the sizes at which they change their behaviour"""
    r, seen, st = set(), set(), [n for n in nodes if isinstance(n, N)]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.k == 'q':
            v = abs(n.a[0])
            if 0 < v < Fraction(1, 20000):
                r.add(float(v))
            elif v > 10 ** 6:
                r.add(float(1 / v))
        st.extend(x for x in n.a if isinstance(x, N))
    return sorted(t for t in r if t > 1e-40)


def onto(reg, eqs, reals, rn, masks, rng):
    """the point moved onto the equations of its region (least-change Newton steps with 220 digits)"""
    A = FinerArith
    with digits(220, A):
        free = reg.free()
        D = {nm: reals[nm] if nm in reals else Decimal(draw(rng, reg.ctx.atom_mask(reg.sp.byname[nm]), 0)) for nm in free}
        h = Decimal('1e-110')
        for _ in range(14):
            memo = {}
            r = [reg.poly(p, A, D, memo) for p in eqs]
            if max(abs(v) for v in r) < Decimal('1e-205'):
                break
            J = []
            for nm in free:
                p2 = dict(D)
                p2[nm] += h
                memo = {}
                J.append([(v - w) / h for v, w in zip([reg.poly(p, A, p2, memo) for p in eqs], r)])
            m = len(eqs)
            M = [[sum(J[j][i] * J[j][k] for j in range(len(free))) for k in range(m)] + [-r[i]] for i in range(m)]
            for i in range(m):
                p = max(range(i, m), key=lambda k: abs(M[k][i]))
                M[i], M[p] = M[p], M[i]
                if abs(M[i][i]) < Decimal('1e-60'):
                    return None
                for k in range(i + 1, m):
                    f = M[k][i] / M[i][i]
                    M[k] = [a - f * b for a, b in zip(M[k], M[i])]
            lam = [Decimal(0)] * m
            for i in range(m - 1, -1, -1):
                lam[i] = (M[i][m] - sum(M[i][k] * lam[k] for k in range(i + 1, m))) / M[i][i]
            for j, nm in enumerate(free):
                D[nm] += sum(J[j][i] * lam[i] for i in range(m))
        else:
            return None
        memo, out = {}, {}
        for a in reg.leaves():
            out[a.name] = reg.atom(a.id, A, D, memo)
        for nm in rn:
            out.setdefault(nm, reals.get(nm, Decimal(draw(rng, masks.get(nm, 7), 1))))
        return out


def fine_search(ctx, reg, masks, rn, inn, ints, pre, kind, got, want, tol, end, rng):
    """thresholds too small for ordinary sample points: points at, and differences between components of, that size"""
    ths = thresholds(pre, got, want)
    if not ths:
        return None
    leaf = {}
    for nm in rn:
        leaf.setdefault(nm.rpartition('.')[2], []).append(nm)
    objs = sorted({nm.rpartition('.')[0] for nm in rn if '.' in nm})
    neqs = [p for p in reg.eqs]
    k = 0
    while time.time() < end and k < 240:
        k += 1
        th = rng.choice(ths)
        size = th ** rng.choice([1, 1, 0.5, 0.25, 2]) * 10 ** rng.uniform(-1.2, 0.6)
        if not 1e-32 < size < 1e-2:
            continue
        S = Decimal(size)
        base = {nm: Decimal(draw(rng, masks.get(nm, 7), (0, 1, 1)[k % 3])) for nm in sorted(rn)}
        way = k % 5
        if way == 0:
            reals = {nm: v * S for nm, v in base.items()}
        elif way in (1, 2) and objs:
            o = rng.choice(objs)
            reals = {nm: v * S if nm.rpartition('.')[0] == o else v for nm, v in base.items()}
        elif way == 3 and len(objs) > 1:
            # one object is nearly another
            o, p = rng.sample(objs, 2)
            sg = rng.choice([1, 1, -1])
            f = rng.choice([1, 1, 2, -1])
            reals = dict(base)
            for nm in rn:
                if nm.rpartition('.')[0] == o and p + '.' + nm.rpartition('.')[2] in base:
                    reals[nm] = base[p + '.' + nm.rpartition('.')[2]] * sg * f + S * Decimal(draw(rng, 7, 1))
        else:
            sub = set(rng.sample(sorted(rn), rng.randint(1, len(rn)))) if rn else set()
            if rng.random() < 0.5:
                reals = {nm: v * S if nm in sub else v for nm, v in base.items()}
            else:
                reals = {nm: v + S * Decimal(draw(rng, 7, 1)) if nm in sub else v for nm, v in base.items()}
        for nm in inn:
            if nm not in reg.ints:
                dom = ctx.domains.get(nm)
                ints[nm] = rng.choice(list(dom)) if isinstance(dom, (list, tuple)) else rng.choice([0, 1, 2, 3, 5, 7, 100]) if dom is None else rng.randrange(1 << min(dom, 31))
        if neqs:
            try:
                reals = onto(reg, neqs, reals, rn, masks, rng)
            except (NoValue, ArithmeticError, ValueError, KeyError):
                reals = None
            if reals is None:
                continue
        diffs = []
        for A, prec in ((FineArith, 130), (FinerArith, 220)):
            with digits(prec, A):
                try:
                    bad, sh = check_point(A, reals, ints, ctx.bools, pre, kind, got, want, tol, Decimal(0))
                except (ArithmeticError, ValueError):
                    bad = False
                if not bad:
                    break
                g, x = sh
                d = None if any(isinstance(v, (bool, int, NoValue)) for v in sh) else abs(g - x)
                diffs.append((d, sh))
        if len(diffs) < 2:
            continue
        (a, _), (b, sh) = diffs
        if (a is None) != (b is None) or a is not None and abs(a - b) > Decimal('1e-6') * b:
            continue        # rounding noise of the evaluation
        return describe({n: v for n, v in reals.items() if n in rn}, {n: v for n, v in ints.items() if n in inn}, sh)
    return None


def search(ctx, masks, cutnodes, pre, kind, got, want, tol=None, seconds=4.0, rng=None):
    """a point where the precondition holds and the claim does not; None when none was found"""
    rng = rng or random.Random(7)
    end = time.time() + seconds
    rn, inn = names(pre, got, want)
    reg = Region(ctx, cutnodes)
    ints = dict(reg.ints)
    for nm in inn:
        if nm not in ints:
            ints[nm] = 0

    def confirm(reals):
        d = {k: Decimal(v) if not isinstance(v, Decimal) else v for k, v in reals.items()}
        bad, sh = check_point(DecArith, d, ints, ctx.bools, pre, kind, got, want, tol)
        return describe({k: v for k, v in d.items() if k in rn}, {k: v for k, v in ints.items() if k in inn}, sh) if bad else None

    # anywhere: simple points first
    for k in range(300):
        if time.time() > end:
            break
        reals = {nm: draw(rng, masks.get(nm, 7), (0, 0, 1, 1, 2)[k % 5]) for nm in rn}
        if k % 4 == 3:
            # all lengths together: very short or very long, so that thresholds are crossed
            sc = 10.0 ** rng.choice([-7, -5, -4, -3, -2, -1.3, -1, 1, 2, 4])
            reals = {nm: v * sc for nm, v in reals.items()}
        for nm in inn:
            if nm not in reg.ints:
                dom = ctx.domains.get(nm)
                ints[nm] = rng.choice(list(dom)) if isinstance(dom, (list, tuple)) else rng.choice([0, 1, 2, 3, 5, 7, 100, 2147483647]) if dom is None else rng.randrange(1 << min(dom, 31))
        bad, sh = check_point(FloatArith, reals, ints, ctx.bools, pre, kind, got, want, tol)
        if bad:
            r = confirm(reals)
            if r:
                return r
    # in the region: solve its conditions
    reg.prepare()
    free = reg.free()
    for nm in inn:
        if nm not in reg.ints:
            ints[nm] = 0
    k = 0
    while time.time() < end and k < 60:
        k += 1
        mode = (0, 1, 2, 1)[k % 4]
        sc = (1.0, 1.0, 1.0, 1e-4, 1e-2, 10.0, 1e-6)[k % 7]
        pt = {nm: sc * draw(rng, reg.ctx.atom_mask(reg.sp.byname[nm]), mode) for nm in free}
        margin = (0.1, 1e-3, 1e-5, 0.01, 1e-7, 1e-9)[k % 6]
        lam = 1e-3
        try:
            r = reg.residual(FloatArith, pt, margin)
        except (NoValue, OverflowError, ZeroDivisionError, ValueError):
            continue
        cost = sum(v * v for v in r)
        for it in range(40):
            if cost < 1e-22 or time.time() > end:
                break
            J = [[0.0] * len(free) for _ in r]
            try:
                for j, nm in enumerate(free):
                    h = 1e-7 * (1 + abs(pt[nm]))
                    p2 = dict(pt)
                    p2[nm] += h
                    r2 = reg.residual(FloatArith, p2, margin)
                    for i in range(len(r)):
                        J[i][j] = (r2[i] - r[i]) / h
            except (NoValue, OverflowError, ZeroDivisionError, ValueError):
                break
            ok = False
            for _ in range(8):
                d = solve(J, r, lam) if free else None
                if d is None:
                    break
                p2 = {nm: pt[nm] + d[j] for j, nm in enumerate(free)}
                try:
                    r2 = reg.residual(FloatArith, p2, margin)
                    c2 = sum(v * v for v in r2)
                except (NoValue, OverflowError, ZeroDivisionError, ValueError):
                    c2 = float('inf')
                if c2 < cost:
                    pt, r, cost, ok = p2, r2, c2, True
                    lam = max(lam / 10, 1e-15)
                    break
                lam = lam * 10 if lam > 1e-12 else 1e-6
            if not ok:
                break
        if cost > min(1e-8, margin * margin):
            continue
        # polish the equations
        try:
            D = {nm: Decimal(v) for nm, v in pt.items()}
            for _ in range(12):
                if not reg.eqs or not free:
                    break
                memo = {}
                rr = [reg.poly(p, DecArith, D, memo) for p in reg.eqs]
                if max(abs(v) for v in rr) < Decimal('1e-40'):
                    break
                J = [[0.0] * len(free) for _ in rr]
                for j, nm in enumerate(free):
                    h = Decimal('1e-20')
                    p2 = dict(D)
                    p2[nm] += h
                    memo = {}
                    r2 = [reg.poly(p, DecArith, p2, memo) for p in reg.eqs]
                    for i in range(len(rr)):
                        J[i][j] = float((r2[i] - rr[i]) / h)
                sc = max(abs(v) for v in rr)
                d = solve(J, [float(v / sc) for v in rr], 1e-13)
                if d is None:
                    break
                for j, nm in enumerate(free):
                    D[nm] += Decimal(d[j]) * sc
            memo = {}
            reals = {}
            for a in reg.leaves():
                reals[a.name] = reg.atom(a.id, DecArith, D, memo)
            for nm in rn:
                reals.setdefault(nm, Decimal(draw(rng, masks.get(nm, 7), 1)))
            for nm in list(reals):
                if nm.startswith('real(') and nm[5:-1] in inn:
                    ints[nm[5:-1]] = int(round(reals[nm]))
            r = confirm(reals)
            if r:
                return r
        except (NoValue, ArithmeticError, ValueError):
            continue
    return fine_search(ctx, reg, masks, rn, inn, ints, pre, kind, got, want, tol, time.time() + seconds, rng)
