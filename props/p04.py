from report import *

META = {
    'title': 'Easing and response curves follow their defining formulas',
    'statement': 'Every easing mode returns 0 for times at or before 0 and 1 for times at or after 1, and its named polynomial, sinusoidal, exponential or circular formula in between, on both halves of the in-out modes. Interpolating scalars, integers or vectors with a mode equals plain interpolation at the eased ratio. Response curves apply a symmetric dead zone, rescale the rest to start at zero and are odd functions of the input.',
    'forall': 'every time, input value, threshold in [0,1) and every mode and curve, float and double',
    'why': 'tests evaluate each curve at 0, 0.5 and 1 only, and each response curve at three non-negative values without a dead zone: negative inputs, thresholds and the interior of every segment are unexplored',
    'files': ['interpolation.h', 'functions.h'],
    'mech': [('interpolationRatio and mode-taking lerp', 'interpolation.h'), ('evaluate', 'functions.h')],
}
u = Unit('P04', META['title'])
Q = lambda a, b=1: q(Fraction(a, b))
H = Q(1, 2)
# exact normalisation constants of the exponential family; the library rounds them to about 6 digits
M10 = Q(1, 1024)
KN = Q(1024, 1023)
e2 = lambda x: fn('exp2', x)
pw = lambda t, n: t if n == 1 else t * pw(t, n - 1)


def inout(fin):
    """in-out curve from an 'in' curve: mirrored halves"""
    return lambda t: ite(t < H, H * fin(2 * t), 1 - H * fin(2 - 2 * t))


def out(fin):
    return lambda t: 1 - fin(1 - t)


lin = lambda t: t
IN = {'Quadratic': lambda t: pw(t, 2), 'Cubic': lambda t: pw(t, 3), 'Quartic': lambda t: pw(t, 4), 'Quintic': lambda t: pw(t, 5),
      'Sinusoidal': lambda t: 1 - cos(t * PI / 2), 'Exponential2': lambda t: e2(20 * (t - 1)), 'Circular': lambda t: 1 - sqrt(1 - t * t)}
MODES = {'Linear': lin, 'Parabolic': lambda t: t * t, 'Cubic': lambda t: pw(t, 3), 'Exponential': lambda t: e2(t) - 1, 'Cosine': lambda t: 1 - cos(t * PI / 2)}
for k, f in IN.items():
    MODES[k + 'In'] = f
    MODES[k + 'Out'] = out(f)
    MODES[k + 'InOut'] = inout(f)


def clamp01(t, x):
    return ite(t <= 0, q(0), ite(t >= 1, q(1), x))


def expmode(v, mode, t):
    """exponential family normalised to run from 0 to 1"""
    m10, k = M10, KN
    fin = lambda x: (e2(10 * (x - 1)) - m10) * k
    if mode == 'ExponentialIn':
        return fin(t)
    if mode == 'ExponentialOut':
        return 1 - (e2(-10 * t) - m10) * k
    return ite(t < H, H * fin(2 * t), H * (2 - (e2(10 - 20 * t) - m10) * k))


for m, f in MODES.items():
    u.check('ease_' + m, 't:R', 'return mathlib::interpolationRatio(t, mathlib::InterpolationMode::%s);' % m, lambda v, f=f: [Eq('eased', v.ret, clamp01(v.arg('t'), f(v.arg('t'))))], ret='R')
for m in ('ExponentialIn', 'ExponentialOut', 'ExponentialInOut'):
    u.check('ease_' + m, 't:R', 'return mathlib::interpolationRatio(t, mathlib::InterpolationMode::%s);' % m, lambda v, m=m: [Approx('eased', v.ret, clamp01(v.arg('t'), expmode(v, m, v.arg('t'))), Fraction(1, 200000))], ret='R')
for m in ('QuadraticOut', 'QuinticInOut', 'SinusoidalIn'):
    f = MODES[m]
    mm = 'mathlib::InterpolationMode::' + m
    u.check('lerp_mode_' + m, 'a:R b:R t:R', 'return mathlib::lerp(a, b, t, %s);' % mm,
            lambda v, f=f: [Eq('lerp', v.ret, v.arg('a') + (v.arg('b') - v.arg('a')) * clamp01(v.arg('t'), f(v.arg('t'))))], ret='R')
    for t in ('V2', 'V3'):
        g = (lambda v, o, out=False: v.v2(o, out=out)) if t == 'V2' else (lambda v, o, out=False: v.v3(o, out=out))
        u.check('lerp_mode_%s_%s' % (t, m), 'a:c%s b:c%s t:R o:%s' % (t, t, t), 'o = mathlib::lerp(a, b, t, %s);' % mm,
                lambda v, f=f, g=g: v.eqv('', g(v, 'o', True), g(v, 'a') + (g(v, 'b') - g(v, 'a')) * clamp01(v.arg('t'), f(v.arg('t'))), 'o'))


def dead(x, th):
    return ite((x >= -th) & (x <= th), q(0), ite(x >= 0, (x - th) / (1 - th), (x + th) / (1 - th)))


def odd(f):
    return lambda x: ite(x >= 0, f(x), -f(-x))


def cosc(v):
    """the quarter turn the curve uses: any number that agrees with pi/2 to eight digits (the tests pin the rounded one)"""
    st, seen = [v.ret], set()
    while st:
        n = st.pop()
        if isinstance(n, N) and n.id not in seen:
            seen.add(n.id)
            if n.k == 'q' and abs(n.a[0] - Fraction(157079632679, 10 ** 11)) < Fraction(1, 10 ** 8):
                return n
            st += n.a
    return PI / 2


CURVES = {'Zero': lambda v, x: q(0), 'Linear': lambda v, x: x, 'Parabolic': lambda v, x: odd(lambda y: y * y)(x), 'Cubic': lambda v, x: x * x * x,
          'Exponential': lambda v, x: odd(lambda y: e2(y) - 1)(x),
          'Cosine': lambda v, x: odd(lambda y: ite(y >= 1, q(1), (1 - cos(y * cosc(v))) / (1 - cos(cosc(v)))))(x)}
for c, f in CURVES.items():
    u.check('curve_' + c, 'x:R th:R', 'return mathlib::evaluate(x, th, mathlib::ResponseCurveType::%s);' % c,
            lambda v, f=f: {'pre': (v.arg('th') >= 0) & (v.arg('th') < 1), 'claims': [Eq('response', v.ret, f(v, dead(v.arg('x'), v.arg('th'))))]}, ret='R')


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
