from report import *

META = {
    'title': 'Scalar and angular helpers: modulus, clamping, interpolation on the circle',
    'statement': 'The published constants have the values of their names (multiples of pi, limits of the type). Positive and centred modulus return the representative of the argument in [0, y) and [-y/2, y/2); clamping, minimum, maximum, absolute value and degree/radian conversion satisfy their defining formulas, and the clamped inverse sine and cosine accept any input. Linear interpolation hits both end points; circular interpolation travels the shortest arc, never more than the requested maximum angle, and reports the fraction of the arc actually travelled. Minimum, maximum, clamping and interpolation of integers follow the same rules, distances and squared distances of two vectors are those of their difference, and the next coordinate axis cycles x, y, z.',
    'forall': 'every argument, modulus > 0, ratio, pair of angles and pair of planar vectors',
    'why': 'the tests use a few angles on one side of the wrap-around point; wrap-around of negative differences, zero differences and non-zero start angles are not reached',
    'files': ['functions.h', 'interpolation.h', 'impl/vec2.h'],
    'mech': [('fmodPositive, fmodCentered, clippedBetween, asin, acos', 'functions.h'), ('lerp, clerp, clerpMaxAngle', 'interpolation.h'), ('Vec2 clerp forms', 'impl/vec2.h')],
}
u = Unit('P03', META['title'])
HALF = q(Fraction(1, 2))


def frac(x):
    return fn('frac', x)


def fpos(x, y):
    return y * frac(x / y)


def fcent(x, y):
    return y * frac(x / y + HALF) - y * HALF


def pos(*a):
    return all_(*[x > 0 for x in a])


def one(name, params, body, spec, pre=None, **kw):
    def s(v):
        e = spec(v)
        c = e if isinstance(e, list) else [Eq('result', v.ret, e)]
        return {'pre': pre(v), 'claims': c} if pre else c
    u.check(name, params, body, s, **kw)


A = lambda v, n: v.arg(n)
one('fmodPositive', 'x:R y:R', 'return mathlib::fmodPositive(x, y);', lambda v: fpos(A(v, 'x'), A(v, 'y')), lambda v: pos(A(v, 'y')), ret='R')
one('fmodPositive_range', 'x:R y:R', 'return mathlib::fmodPositive(x, y);', lambda v: [Holds('not negative', v.ret >= 0), Holds('below the modulus', v.ret < A(v, 'y'))], lambda v: pos(A(v, 'y')), ret='R')
one('fmodCentered', 'x:R y:R', 'return mathlib::fmodCentered(x, y);', lambda v: fcent(A(v, 'x'), A(v, 'y')), lambda v: pos(A(v, 'y')), ret='R')
one('fmodCentered_range', 'x:R y:R', 'return mathlib::fmodCentered(x, y);', lambda v: [Holds('at least -y/2', v.ret * 2 >= -A(v, 'y')), Holds('below y/2', v.ret * 2 < A(v, 'y'))], lambda v: pos(A(v, 'y')), ret='R')
one('fmod', 'x:R y:R', 'return mathlib::fmod(x, y);', lambda v: fn('fmod', A(v, 'x'), A(v, 'y')), lambda v: ~A(v, 'y').eq(0), ret='R')
one('abs', 'x:R', 'return mathlib::abs(x);', lambda v: vabs(A(v, 'x')), ret='R')
one('min', 'x:R y:R', 'return mathlib::min(x, y);', lambda v: vmin(A(v, 'x'), A(v, 'y')), ret='R')
one('max', 'x:R y:R', 'return mathlib::max(x, y);', lambda v: vmax(A(v, 'x'), A(v, 'y')), ret='R')
clip = lambda x, a, b: ite(x > b, b, ite(x < a, a, x))
one('clipped', 'x:R a:R b:R', 'return mathlib::clippedBetween(x, a, b);', lambda v: clip(A(v, 'x'), A(v, 'a'), A(v, 'b')), lambda v: A(v, 'a') <= A(v, 'b'), ret='R')
one('deg2rad', 'x:R', 'return mathlib::degreeToRadian(x);', lambda v: A(v, 'x') * PI / 180, ret='R')
one('rad2deg', 'x:R', 'return mathlib::radianToDegree(x);', lambda v: A(v, 'x') * 180 / PI, ret='R')
one('asin', 'x:R', 'return mathlib::asin(x);', lambda v: fn('asin', clip(A(v, 'x'), q(-1), q(1))), ret='R')
one('acos', 'x:R', 'return mathlib::acos(x);', lambda v: fn('acos', clip(A(v, 'x'), q(-1), q(1))), ret='R')
for n, k in (('PI', 1), ('PI_TIMES_2', 2), ('PI_OVER_2', Fraction(1, 2)), ('PI_OVER_4', Fraction(1, 4)), ('PI_OVER_8', Fraction(1, 8)), ('PI_OVER_16', Fraction(1, 16)), ('PI_OVER_3', Fraction(1, 3)), ('PI_OVER_6', Fraction(1, 6))):
    one('const_' + n, 'x:R', 'return mathlib::Constants<T>::%s;' % n, lambda v, k=k: PI * q(k), ret='R')
for n, k in (('MIN_VALUE', 'std::numeric_limits<T>::min()'), ('MAX_VALUE', 'std::numeric_limits<T>::max()'), ('MAX_NEG_VALUE', '-std::numeric_limits<T>::max()')):
    one('const_' + n, 'o:R& p:R&', 'o = mathlib::Constants<T>::%s; p = %s;' % (n, k), lambda v: [Eq('value', v.cell('o', '', 'out'), v.cell('p', '', 'out'))], ret='void')
# integers
ilt = lambda a, b: icmp('slt', a, b, 32)
one('min_int', 'a:int b:int', 'return mathlib::min(a, b);', lambda v: ite(ilt(A(v, 'a'), A(v, 'b')), A(v, 'a'), A(v, 'b')), ret='int')
one('max_int', 'a:int b:int', 'return mathlib::max(a, b);', lambda v: ite(ilt(A(v, 'b'), A(v, 'a')), A(v, 'a'), A(v, 'b')), ret='int')
one('clipped_int', 'x:int a:int b:int', 'return mathlib::clippedBetween(x, a, b);', lambda v: ite(ilt(A(v, 'x'), A(v, 'a')), A(v, 'a'), ite(ilt(A(v, 'b'), A(v, 'x')), A(v, 'b'), A(v, 'x'))),
    lambda v: ~ilt(A(v, 'b'), A(v, 'a')), ret='int')
one('lerp_int', 'a:int b:int t:R', 'return mathlib::lerp(a, b, t);', lambda v: iop('add', A(v, 'a'), N('f2i', A(v, 't') * i2f(iop('sub', A(v, 'b'), A(v, 'a'), 32))), 32), ret='int')
# distances
for t, g in (('V2', lambda v, o: v.v2(o)), ('V3', lambda v, o: v.v3(o))):
    one('distance_' + t, 'a:c%s b:c%s' % (t, t), 'return mathlib::distance(a, b);', lambda v, g=g: length(g(v, 'b') - g(v, 'a')), ret='R')
    one('distanceSqr_' + t, 'a:c%s b:c%s' % (t, t), 'return mathlib::distanceSqr(a, b);', lambda v, g=g: len2(g(v, 'b') - g(v, 'a')), ret='R')
# the order of the axes
for d, ax in (('2D', 'XY'), ('3D', 'XYZ')):
    for i, c in enumerate(ax):
        one('next%s_%s' % (d, c), '', 'return (int)mathlib::next%s(mathlib::Coord::%s) - (int)mathlib::Coord::%s;' % (d, c, ax[(i + 1) % len(ax)]), lambda v: ic(0), ret='int')
# linear interpolation
one('lerp', 'a:R b:R t:R', 'return mathlib::lerp(a, b, t);', lambda v: A(v, 'a') * (1 - A(v, 't')) + A(v, 'b') * A(v, 't'), ret='R')
for t in ('V2', 'V3'):
    g = (lambda v, o, out=False: v.v2(o, out=out)) if t == 'V2' else (lambda v, o, out=False: v.v3(o, out=out))
    u.check('lerp_' + t, 'a:c%s b:c%s t:R o:%s' % (t, t, t), 'o = mathlib::lerp(a, b, t);', lambda v, g=g: v.eqv('', g(v, 'o', True), g(v, 'a') * (1 - v.arg('t')) + g(v, 'b') * v.arg('t'), 'o'))
# circular interpolation
TAU = PI * 2
delta = lambda f, t: fcent(t - f, TAU)


def bounded(d, m):
    return ite(d > m, m, ite(d < -m, -m, d))


one('clerp', 'f:R t:R r:R', 'return mathlib::clerp(f, t, r);', lambda v: A(v, 'f') + delta(A(v, 'f'), A(v, 't')) * A(v, 'r'), ret='R')
one('clerpMaxAngle', 'f:R t:R m:R', 'return mathlib::clerpMaxAngle(f, t, m);', lambda v: A(v, 'f') + bounded(delta(A(v, 'f'), A(v, 't')), A(v, 'm')), lambda v: A(v, 'm') >= 0, ret='R')
def cmr(v):
    d = delta(A(v, 'f'), A(v, 't'))
    b = bounded(d, A(v, 'm'))
    return [Eq('angle', v.ret, A(v, 'f') + b), Eq('ratio', v.r('q', True), ite(d.eq(0), q(1), b / d), ('q', ''))]
one('clerpMaxAngle_ratio', 'f:R t:R m:R q:R&', 'return mathlib::clerpMaxAngle(f, t, m, q);', cmr, lambda v: A(v, 'm') >= 0, ret='R')
# planar vectors
ang = lambda a: fn('atan2', a[1], a[0])


def polar(t, l):
    return V(l * cos(t), l * sin(t))


def vclerp(v, o):
    a, b, r = v.v2('a'), v.v2('b'), v.arg('r')
    th = ang(a) + delta(ang(a), ang(b)) * r
    l = length(a) * (1 - r) + length(b) * r
    w_ = vite(r.eq(0), a, vite(r.eq(1), b, polar(th, l)))
    return {'pre': (r >= 0) & (r <= 1), 'claims': v.eqv('', v.v2(o, out=True), w_, o)}


def vclerpmax(v, o):
    a, b, m = v.v2('a'), v.v2('b'), v.arg('m')
    d = delta(ang(a), ang(b))
    bd = bounded(d, m)
    r = ite(d.eq(0), q(1), bd / d)
    l = length(a) * (1 - r) + length(b) * r
    w_ = vite(m.eq(0), a, polar(ang(a) + bd, l))
    return {'pre': m >= 0, 'claims': v.eqv('', v.v2(o, out=True), w_, o)}


u.check('V2_clerp', 'a:cV2 b:cV2 r:R o:V2', 'o.clerp(a, b, r);', lambda v: vclerp(v, 'o'))
u.check('V2_fromClerp', 'a:cV2 b:cV2 r:R o:V2', 'o = V2::fromClerp(a, b, r);', lambda v: vclerp(v, 'o'))
u.check('V2_clerpMaxAngle', 'a:cV2 b:cV2 m:R o:V2', 'o.clerpMaxAngle(a, b, m);', lambda v: vclerpmax(v, 'o'))
u.check('V2_fromClerpMaxAngle', 'a:cV2 b:cV2 m:R o:V2', 'o = V2::fromClerpMaxAngle(a, b, m);', lambda v: vclerpmax(v, 'o'))


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
