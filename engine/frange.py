"""Interval analysis of gated value graphs that stays sound under floating-point rounding.

Arithmetic results are closed intervals (rounding is monotone, so an open end can be reached by rounding);
only exact operations (negation, fabs, fmod, floor, ceil, trunc, selection) keep open ends.  Path conditions
refine the nodes they compare with constants.  Inputs are finite numbers.

rule: no path on which every condition can hold, rounding included, delivers an uninitialised value."""
import math
from vg import N, T, F

INF = math.inf


class I:
    __slots__ = ('lo', 'lop', 'hi', 'hop')

    def __init__(self, lo, hi, lop=False, hop=False):
        self.lo, self.hi, self.lop, self.hop = lo, hi, lop, hop

    def empty(self):
        return self.lo > self.hi or (self.lo == self.hi and (self.lop or self.hop))

    def meet(self, o):
        lo, lop = max((self.lo, self.lop), (o.lo, o.lop))
        a, b = (self.hi, not self.hop), (o.hi, not o.hop)
        hi, nh = min(a, b)
        return I(lo, hi, lop, not nh)

    def join(self, o):
        lo, lop = min((self.lo, self.lop), (o.lo, o.lop))
        hi, nh = max((self.hi, not self.hop), (o.hi, not o.hop))
        return I(lo, hi, lop, not nh)

    def neg(self):
        return I(-self.hi, -self.lo, self.hop, self.lop)

    def __repr__(self):
        return '%s%g, %g%s' % ('([' [not self.lop], self.lo, self.hi, '])'[1 if self.hop else 0])


ALL = I(-INF, INF)


def _mul(a, b):
    def m(x, y):
        return 0.0 if x == 0 or y == 0 else x * y
    c = [m(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
    return I(min(c), max(c))


class Range:
    def __init__(self):
        self.memo = {}

    def of(self, n, env):
        """interval of node n under the facts env: {node id: (I, set of excluded integers)}"""
        r = self._of(n, env)
        e = env.get(n.id)
        if e is not None:
            r = r.meet(e[0])
            while e[1] and r.lo in e[1] and r.lo == math.floor(r.lo) and self.isint(n) and not r.empty():
                r = I(r.lo + 1, r.hi)
            while e[1] and r.hi in e[1] and self.isint(n) and not r.empty():
                r = I(r.lo, r.hi - 1)
        return r

    def isint(self, n):
        return n.k in ('ic', 'ivar', 'iop', 'f2i')

    def _of(self, n, env):
        k, a = n.k, n.a
        if k in ('q', 'ic'):
            v = float(a[0])
            return I(v, v)
        if k in ('huge', 'max'):
            return ALL
        if k == 'neg':
            return self.of(a[0], env).neg()
        if k in '+-*/':
            x, y = [self.of(v, env) for v in a]
            if k == '-':
                y = y.neg()
            if k in '+-':
                lo, hi = x.lo + y.lo, x.hi + y.hi
                return I(-INF if lo != lo else lo, INF if hi != hi else hi)
            if k == '/':
                if y.lo > 0 or y.hi < 0 or (y.lo == 0 and y.lop) or (y.hi == 0 and y.hop):
                    inv = I(min(1 / y.hi if y.hi else -INF, 1 / y.lo if y.lo else INF), max(1 / y.lo if y.lo else INF, 1 / y.hi if y.hi else -INF))
                    return _mul(x, inv)
                return ALL
            return _mul(x, y)
        if k == 'ite':
            r = None
            for v, e in self.branches(n, env):
                x = self.of(v, e)
                if not x.empty():
                    r = x if r is None else r.join(x)
            return r if r is not None else I(1, 0)
        if k == 'f2i':
            x = self.of(a[0], env)
            t = lambda v: v if v in (INF, -INF) else float(math.trunc(v))
            hi = t(x.hi) - 1 if x.hop and x.hi == t(x.hi) and x.hi > 0 and x.hi != INF else t(x.hi)
            lo = t(x.lo) + 1 if x.lop and x.lo == t(x.lo) and x.lo < 0 and x.lo != -INF else t(x.lo)
            return I(lo, hi)
        if k == 'i2f':
            return self.of(a[0], env)
        if k == 'iop' and a[0] in ('add', 'sub', 'mul'):
            x, y = self.of(a[1], env), self.of(a[2], env)
            if a[0] == 'mul':
                return _mul(x, y)
            y = y.neg() if a[0] == 'sub' else y
            lo, hi = x.lo + y.lo, x.hi + y.hi
            return I(-INF if lo != lo else lo, INF if hi != hi else hi)
        if k == 'fn':
            f, xs = a[0], [self.of(v, env) for v in a[1:]]
            if f == 'fmod':
                m = max(abs(xs[1].lo), abs(xs[1].hi))
                x = xs[0]
                return I(0.0 if x.lo >= 0 else -m, 0.0 if x.hi <= 0 else m, x.lo < 0, x.hi > 0)
            if f in ('fabs', 'abs'):
                x = xs[0]
                return x if x.lo >= 0 else x.neg() if x.hi <= 0 else I(0, max(-x.lo, x.hi))
            if f in ('sin', 'cos'):
                return I(-1, 1)
            if f == 'sqrt':
                return I(math.sqrt(max(xs[0].lo, 0)), math.sqrt(max(xs[0].hi, 0)) if xs[0].hi != INF else INF)
            if f in ('floor', 'ceil', 'trunc'):
                g = lambda v: v if v in (INF, -INF) else float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[f](v))
                return I(g(xs[0].lo), g(xs[0].hi))
        return ALL

    def branches(self, n, env):
        """the alternatives of a gating node that can be taken, with the facts each adds"""
        for want, v in ((True, n.a[1]), (False, n.a[2])):
            e = self.refine(n.a[0], want, env)
            if e is not None:
                yield v, e

    def refine(self, c, want, env):
        """env with condition c having the given truth, None if impossible"""
        if c is T or c is F:
            return env if (c is T) == want else None
        k = c.k
        if k == 'not':
            return self.refine(c.a[0], not want, env)
        if k in ('and', 'or'):
            if (k == 'and') == want:
                for x in c.a:
                    env = self.refine(x, want, env)
                    if env is None:
                        return None
                return env
            # one of the parts: keep the facts only if a single part can have that truth
            e = [self.refine(x, want, env) for x in c.a]
            e = [x for x in e if x is not None]
            return None if not e else e[0] if len(e) == 1 else env
        key = ('b', c.id)
        if k == 'ite':
            a = self.refine(c.a[0], True, env)
            b = self.refine(c.a[0], False, env)
            a = self.refine(c.a[1], want, a) if a is not None else None
            b = self.refine(c.a[2], want, b) if b is not None else None
            return a if b is None else b if a is None else env
        if k not in ('cmp', 'cmpi'):
            if env.get(key, want) != want:
                return None
            d = dict(env)
            d[key] = want
            return d
        op, x, y = c.a[0], c.a[1], c.a[2]
        op = {'slt': 'lt', 'sle': 'le', 'sgt': 'gt', 'sge': 'ge', 'ult': '?', 'ule': '?', 'ugt': '?', 'uge': '?'}.get(op, op)
        if not want:
            op = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}.get(op, '?')
        rx, ry = self.of(x, env), self.of(y, env)
        if rx.empty() or ry.empty():
            return None
        if op == '?':
            return env
        # the order of two nodes, whatever their ranges: a set of <, =, >
        m = {'lt': 1, 'eq': 2, 'gt': 4, 'le': 3, 'ge': 6, 'ne': 5}[op]
        rk = ('r', x.id, y.id)
        if str(x.id) > str(y.id):
            rk, m = ('r', y.id, x.id), (m & 2) | (m & 1) << 2 | m >> 2
        m &= env.get(rk, 7)
        if not m:
            return None
        env = dict(env)
        env[rk] = m
        ints = self.isint(x) or self.isint(y)
        d = dict(env)

        def put(n, i, ex=None):
            if n.k in ('q', 'ic'):
                return True
            o = d.get(n.id, (ALL, frozenset()))
            d[n.id] = (o[0].meet(i), o[1] | ({ex} if ex is not None else set()))
            return not self.of(n, d).empty()

        def below(a, b, ra, rb, strict):
            if ints:
                s = 1 if strict else 0
                return put(a, I(-INF, rb.hi - s)) and put(b, I(ra.lo + s, INF))
            return put(a, I(-INF, rb.hi, False, strict or rb.hop)) and put(b, I(ra.lo, INF, strict or ra.lop, False))
        if op in ('lt', 'le'):
            ok = below(x, y, rx, ry, op == 'lt')
        elif op in ('gt', 'ge'):
            ok = below(y, x, ry, rx, op == 'gt')
        elif op == 'eq':
            m = rx.meet(ry)
            ok = not m.empty() and put(x, m) and put(y, m)
        else:
            ok = True
            for a, ra, b in ((x, rx, y), (y, ry, x)):
                if ra.lo == ra.hi:
                    ok = ok and put(b, ALL, ra.lo)
                    rb = self.of(b, d)
                    if rb.lo == rb.hi == ra.lo:
                        ok = False
        return d if ok else None

    def undefined(self, n, env, path=()):
        """a path of branch choices that delivers an uninitialised value at the root of n, or None"""
        if n.k == 'undef':
            return path
        if n.k == 'ite':
            for i, (v, e) in enumerate(self.branches(n, env)):
                p = self.undefined(v, e, path + ((n.a[0], v is n.a[1]),))
                if p is not None:
                    return p
            return None
        for x in n.a:
            if isinstance(x, N) and has_undef(x):
                p = self.undefined(x, env, path)
                if p is not None:
                    return p
        return None


_hu = {}


def has_undef(n):
    r = _hu.get(n.id)
    if r is None:
        _hu[n.id] = False
        r = _hu[n.id] = n.k == 'undef' or any(isinstance(x, N) and has_undef(x) for x in n.a)
    return r


class Undefined(Exception):
    pass


class NoValue(Exception):
    pass


def rounded(n, env, single, memo):
    """the value of a node in floating point at one point; Undefined when it needs something never initialised"""
    import struct

    def rnd(x, s=single):
        if not s or x != x or x in (math.inf, -math.inf):
            return x
        try:
            return struct.unpack('f', struct.pack('f', x))[0]
        except OverflowError:
            return math.inf if x > 0 else -math.inf

    def ev(n):
        if n.id in memo:
            return memo[n.id]
        k = n.k
        if k == 'undef':
            raise Undefined()
        if k == 'q':
            r = rnd(float(n.a[0]))
        elif k == 'pi':
            r = rnd(math.pi)
        elif k == 'T':
            r = True
        elif k == 'F':
            r = False
        elif k == 'ic':
            r = n.a[0]
        elif k == 'var':
            r = env[n.a[0]]
        elif k == 'ite':
            r = ev(n.a[1] if ev(n.a[0]) else n.a[2])
        elif k == 'not':
            r = not ev(n.a[0])
        elif k == 'and':
            r = ev(n.a[0]) and ev(n.a[1])
        elif k == 'or':
            r = ev(n.a[0]) or ev(n.a[1])
        elif k in ('cmp', 'cmpi'):
            x, y = ev(n.a[1]), ev(n.a[2])
            r = {'lt': x < y, 'le': x <= y, 'eq': x == y, 'slt': x < y, 'ult': x % 2 ** n.a[3] < y % 2 ** n.a[3] if n.a[0] == 'ult' else 0}[n.a[0]]
        elif k == 'f2i':
            x = ev(n.a[0])
            if x != x or abs(x) > 2 ** 31:
                raise NoValue()
            r = int(x)
        elif k == 'i2f':
            r = rnd(float(ev(n.a[0])))
        elif k == 'neg':
            r = -ev(n.a[0])
        elif k in ('+', '-', '*', '/'):
            x, y = ev(n.a[0]), ev(n.a[1])
            if k == '/' and y == 0:
                raise NoValue()
            r = rnd(x + y if k == '+' else x - y if k == '-' else x * y if k == '*' else x / y)
        elif k == 'fn':
            l = [ev(x) for x in n.a[1:]]
            f = {'sqrt': math.sqrt, 'fmod': math.fmod, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'sin': math.sin, 'cos': math.cos, 'acos': math.acos,
                 'asin': math.asin, 'atan2': math.atan2, 'tr32': lambda x: rnd(x, True)}.get(n.a[0])
            if f is None:
                raise NoValue()
            r = rnd(float(f(*l)))
        else:
            raise NoValue()
        memo[n.id] = r
        return r
    try:
        return ev(n)
    except (ValueError, OverflowError, ZeroDivisionError, RecursionError):
        raise NoValue()


def reached_under_rounding(n, single, seconds=4):
    """a point at which the value is not initialised in floating point, or None"""
    import random
    import struct
    import time
    vs, cs, seen, st = set(), {0.0, 1.0}, set(), [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == 'var':
            vs.add(x.a[0])
        elif x.k in ('q', 'ic') and abs(x.a[0]) < 10 ** 6:
            cs.add(float(x.a[0]))
        st += [y for y in x.a if isinstance(y, N)]
    vs = sorted(vs)
    cs = sorted(cs)
    prod = sorted(set(cs + [a * b for a in cs for b in cs if abs(a * b) < 1e7]))
    sp = set()
    for c in prod:
        for d in (0, 1e-30, 1e-20, 1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 1e-3, 0.1):
            sp |= {c + d, c - d, -c + d, -c - d, c * (1 + d), c * (1 - d)}
    sp = sorted(struct.unpack('f', struct.pack('f', x))[0] if single else x for x in sp)
    rg = random.Random(7)
    t0 = time.time()

    def points():
        base = {v: 0.5 for v in vs}
        for v in vs:
            for x in sp:
                yield dict(base, **{v: x})
        while True:
            yield {v: rg.choice(sp) if rg.random() < 0.8 else rg.uniform(-10, 400) for v in vs}
    for e in points():
        if time.time() - t0 > seconds:
            return None
        try:
            rounded(n, {k: (struct.unpack('f', struct.pack('f', x))[0] if single else x) for k, x in e.items()}, single, {})
        except Undefined:
            return ', '.join('%s = %.9g' % (k, x) for k, x in sorted(e.items()))
        except NoValue:
            pass
    return None


def defined_everywhere(names, leaf_filter=None):
    """rule factory: every output cell of the named wrappers is defined on every path, under rounding"""
    def initialised_under_rounding(unit):
        from unit import REPO, Vec
        n, out, unsure = 0, [], []
        for nm in names:
            for sfx in unit.realkinds:
                s = unit.summary(nm, sfx)
                vals = []
                for o, cells in s.mem.items():
                    for off, c in sorted(cells.items()):
                        lay = o.layout.get(off) if o.kind == 'arg' else None
                        if lay:
                            vals.append((lay[0], c[1], s.builder.last_store.get((o.name, off))))
                if s.ret is not None:
                    vals.append(('result', s.ret, s.ret_dbg))
                for lab, v, dbg in vals:
                    if not isinstance(v, N):
                        continue
                    n += 1
                    if not has_undef(v):
                        continue
                    p = Range().undefined(v, {})
                    if p is None:
                        continue
                    fr = []
                    for c in [dbg] + [m.dbg for t, _ in reversed(p) for m in (t,) + tuple(x for x in t.a if isinstance(x, N))]:
                        fr = fr or ([x for x in unit.mod.loc(c) if x[0].startswith(REPO)] if c else [])
                    where = '%s:%d (%s)' % (fr[0][0][len(REPO) + 1:], fr[0][1], fr[0][2]) if fr else s.fn.api
                    from vg import show
                    inst = 'float' if sfx == 'f' else 'double'
                    desc = '; '.join('%s%s' % ('' if t else 'not ', show(c)[:60]) for c, t in p[-3:])
                    if any(x['key'].startswith(nm + '/') and x['inst'] == inst for x in out):
                        continue
                    at = reached_under_rounding(v, sfx == 'f')
                    if at is None:
                        unsure.append('%s<%s> %s: the interval analysis cannot exclude {%s}' % (nm, inst, lab, desc))
                        continue
                    out.append({'key': '%s/%s defined' % (nm, lab), 'inst': inst, 'where': where,
                                'text': 'VIOLATED %s is initialised on every path [%s<%s>] at %s: left uninitialised when {%s}, which rounding reaches at %s' % (lab, nm, inst, where, desc, at)})
        unit.rule_undecided = unsure
        return n, out, 'interval analysis closed under rounding over the gated value graph'
    return initialised_under_rounding
