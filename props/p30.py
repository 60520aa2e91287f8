from unit import *
from algebra import *
import vg

META = {
    'title': 'Random values stay in their ranges and use all of them',
    'statement': 'rand(n), randBetween and randAmplitude return values of their range for every value the generator can give: [0, n) for integers and [0, f] for reals; [from, to); [-n, n); and of magnitude between from and to for randAmplitude(from, to), where both signs occur. The extremes of the generator give the two ends of the range of reals, and intermediate values are spread evenly. Random colours have components in [0, 1] (hue in [0, 360]) and the requested alpha, each component drawn on its own; random unit vectors have length one, are drawn from all directions, one draw per component.',
    'forall': 'every value of the pseudo-random generator in [0, RAND_MAX], every range that is not empty, float and double',
    'why': 'a test that draws a hundred values cannot tell a range that is never left from one left once in a million draws, nor notice a part of the range that is never drawn',
    'files': ['functions.h', 'impl/colorrgb.h', 'impl/colorrgba.h', 'impl/colorhsv.h', 'impl/vec2.h', 'impl/vec3.h'],
    'mech': [('rand, randBetween, randAmplitude', 'functions.h'), ('randomUnitVector', 'impl/vec3.h'), ('random', 'impl/colorhsv.h')],
}
u = Unit('P30', META['title'])
MAX = 2 ** 31 - 1


def draws(v):
    """the values drawn, as reals, in the order of the calls"""
    n = sum(1 for c in v._s.builder.calls if c[0] == 'rand')
    return [vg.i2f(d) for d in ivars(v, n)]


def ivars(v, n):
    found = {}
    st = [c[1] for o in v._s.mem.values() for c in o.values()] + [v._s.ret] + list(v._s.builder.assumed)
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, vg.Vec):
            st += [e for _, e in x.e]
        elif isinstance(x, N) and x.id not in seen:
            seen.add(x.id)
            if x.k == 'ivar' and str(x.a[0]).startswith('rand#'):
                found[int(x.a[0][5:])] = x
            st += x.a
    return [found[k] for k in sorted(found)]


def bound(v):
    """RAND_MAX as a Real"""
    return q(2 ** 31 if v._s.sfx == 'f' else MAX)


def inrange(v):
    return all_(*[(d >= 0) & (d <= bound(v)) for d in draws(v)])


def ck(name, params, body, spec, ret='R'):
    u.check(name, params, body, spec, ret)


# ---------------------------------------------------------------- integers (as reals)
def ints(lo, hi, pre, sym=False):
    def spec(v):
        a = {n: vg.i2f(v.arg(n)) for n, t in v._s.fn.params}
        m = v.ret
        l, h = lo(a), hi(a)
        if sym:
            neg = m < 0
            return dict(pre=inrange(v) & pre(a), claims=[Holds('at least the lower end', neg | (m >= l)), Holds('below the upper end', neg | (m < h)), Holds('at least the upper end, mirrored', ~neg | (m >= -h)), Holds('at most the lower end, mirrored', ~neg | (m < -l))])
        return dict(pre=inrange(v) & pre(a), claims=[Holds('at least the lower end', m >= l), Holds('below the upper end', m < h), Holds('drawn', T if len(draws(v)) >= 1 else F)])
    return spec


ck('int_rand', 'n:int', 'return R(mathlib::rand(n));', ints(lambda a: q(0), lambda a: a['n'], lambda a: a['n'] > 0))
ck('int_randBetween', 'x:int y:int', 'return R(mathlib::randBetween(x, y));', ints(lambda a: a['x'], lambda a: a['y'], lambda a: a['y'] - a['x'] > 0))
ck('int_randAmplitude', 'n:int', 'return R(mathlib::randAmplitude(n));', ints(lambda a: -a['n'], lambda a: a['n'], lambda a: a['n'] > 0))
ck('int_randAmplitude2', 'x:int y:int', 'return R(mathlib::randAmplitude(x, y));', ints(lambda a: a['x'], lambda a: a['y'], lambda a: (a['x'] >= 0) & (a['y'] - a['x'] > 0), sym=True))


# ---------------------------------------------------------------- reals
def within(lo, hi, pre):
    def spec(v):
        a = {n: v.arg(n) for n, t in v._s.fn.params}
        return dict(pre=inrange(v) & pre(a), claims=[Holds('at least the lower end', v.ret >= lo(a)), Holds('at most the upper end', v.ret <= hi(a))])
    return spec


def spread(lo, hi, pre):
    """the result runs evenly from one end to the other"""
    def spec(v):
        a = {n: v.arg(n) for n, t in v._s.fn.params}
        d = draws(v)
        l, h = lo(a), hi(a)
        if len(d) != 1:
            return dict(pre=pre(a), claims=[Holds('one draw', F)])
        k = d[0] / bound(v)
        up, down = v.ret.eq(l + (h - l) * k), v.ret.eq(h - (h - l) * k)
        return dict(pre=inrange(v) & pre(a), claims=[Holds('evenly between the ends', up | down)])
    return spec


for nm, ps, body, lo, hi, pre in (
        ('rand', 'f:R', 'rand<R>(f)', lambda a: q(0), lambda a: a['f'], lambda a: a['f'] > 0),
        ('randBetween', 'x:R y:R', 'randBetween<R>(x, y)', lambda a: a['x'], lambda a: a['y'], lambda a: a['y'] > a['x']),
        ('randAmplitude', 'f:R', 'randAmplitude<R>(f)', lambda a: -a['f'], lambda a: a['f'], lambda a: a['f'] > 0)):
    ck('real_' + nm, ps, 'return mathlib::%s;' % body, within(lo, hi, pre))
    ck('real_' + nm + '_spread', ps, 'return mathlib::%s;' % body, spread(lo, hi, pre))


def amp2(v):
    x, y = v.arg('x'), v.arg('y')
    m = v.ret
    return dict(pre=inrange(v) & (x >= 0) & (y > x), claims=[Holds('magnitude at least the lower end', (m >= x) | (m <= -x)), Holds('magnitude at most the upper end', (m <= y) & (m >= -y))])


ck('real_randAmplitude2', 'x:R y:R', 'return mathlib::randAmplitude<R>(x, y);', amp2)


def amp2both(v):
    """two draws, one at either extreme of the generator"""
    x, y = v.arg('x'), v.arg('y')
    d = draws(v)
    a, b = v.cell('o', 'x', 'out'), v.cell('o', 'y', 'out')
    if len(d) != 2:
        return [Holds('one draw per value', F)]
    return dict(pre=d[0].eq(0) & d[1].eq(bound(v)) & (x >= 0) & (y > x), claims=[Holds('the extremes of the generator give the two ends', a.eq(-y) & b.eq(y) | a.eq(y) & b.eq(-y))])


u.check('real_randAmplitude2_ends', 'x:R y:R o:V2', 'R a = mathlib::randAmplitude<R>(x, y); R b = mathlib::randAmplitude<R>(x, y); o.x = a; o.y = b;', amp2both)


# ---------------------------------------------------------------- colours
def colour(leaves, tops):
    def spec(v):
        d = draws(v)
        cells = [v.cell('o', l, 'out') for l in leaves]
        r = []
        for l, c, t in zip(leaves, cells, tops):
            r += [Holds(l + ' in range', (c >= 0) & (c <= t), ('o', l)), Holds(l + ' runs evenly through its range', any_(*[c.eq(x * t / bound(v)) | c.eq(t - x * t / bound(v)) for x in d]) if d else F, ('o', l))]
        own = [frozenset(x.id for x in d if reaches(c, x)) for c in cells]
        r.append(Holds('each component is drawn on its own', T if all(own) and len(set(own)) == len(cells) and sum(map(len, own)) == len(frozenset().union(*own)) else F))
        if 'k' in [n for n, t in v._s.fn.params]:
            r.append(Eq('a', v.cell('o', 'a', 'out'), v.arg('k'), ('o', 'a')))
        return dict(pre=inrange(v), claims=r)
    return spec


def reaches(e, x):
    st, seen = [e], set()
    t = x.a[0].id if x.k == 'i2f' else x.id
    while st:
        n = st.pop()
        if not isinstance(n, N) or n.id in seen:
            continue
        seen.add(n.id)
        if n.id == t:
            return True
        st += n.a
    return False


u.check('RGB_random', 'o:RGB', 'o = RGB::random();', colour('rgb', (1, 1, 1)))
u.check('RGBA_random', 'o:RGBA k:R', 'o = RGBA::random(k);', colour('rgb', (1, 1, 1)))
u.check('RGBA_random_default', 'o:RGBA', 'o = RGBA::random();', lambda v: dict(pre=inrange(v), claims=[Eq('a', v.cell('o', 'a', 'out'), q(1), ('o', 'a'))]))
u.check('HSV_random', 'o:HSV', 'o = HSV::random();', colour('hsv', (360, 1, 1)))


# ---------------------------------------------------------------- unit vectors
def unitvec(n):
    def spec(v):
        g = Vn(v.cell('o', k, 'out') for k in 'xyz'[:n])
        return dict(pre=inrange(v), claims=[Eq('length', dot(g, g), q(1))])
    return spec


def allround(n):
    def spec(v):
        d = draws(v)
        g = [v.cell('o', k, 'out') for k in 'xyz'[:n]]
        if len(d) != n:
            return [Holds('one draw per component', F)]
        pre = d[0].eq(0) & d[1].eq(bound(v))
        if n == 3:
            pre = pre & d[2].eq(0)
        opp = (g[0] * g[1] < 0)
        if n == 3:
            opp = opp & (g[1] * g[2] < 0)
        return dict(pre=pre, claims=[Holds('opposite extremes of the generator point to opposite sides', opp)])
    return spec


for n in (2, 3):
    b = 'o = V%d::randomUnitVector();' % n
    f = u.fn('V%d_randomUnitVector' % n, 'o:V%d' % n, b)
    u.ob('V%d_randomUnitVector_length' % n, f, unitvec(n))
    u.ob('V%d_randomUnitVector_sides' % n, f, allround(n))


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
