from matlib import *

META = {
    'title': 'Colours: arithmetic, interpolation and conversion between RGB, RGBA and HSV',
    'statement': 'Colour arithmetic works component by component on red, green and blue and leaves the alpha of the left colour alone; integer components are 255ths. Interpolation moves every component linearly from the first colour at 0 to the second at 1, and the hue along the shorter way round, staying within 0 to 360. Converting RGB to HSV gives the value of the largest component, the saturation of the spread and the hue in [0, 360); converting back gives the hexagonal cone colour for every hue, also negative or beyond 360, and the two conversions invert each other.',
    'forall': 'every colour (nonnegative components for RGB to HSV), every hue, ratio and factor, float and double',
    'why': 'tests convert the pure colours; every one of the six hue sectors, the order of the components, ties, hues beyond the circle and wrap-around of the interpolation are not covered',
    'files': ['colorrgb.h', 'colorrgba.h', 'colorhsv.h', 'impl/colorrgb.h', 'impl/colorrgba.h', 'impl/colorhsv.h'],
    'mech': [('toHSV, interp', 'impl/colorrgb.h'), ('operators, interp', 'impl/colorrgba.h'), ('toRGB, interp', 'impl/colorhsv.h')],
}
u = Unit('P20', META['title'])
CS = {'RGB': 'rgb', 'RGBA': 'rgba', 'HSV': 'hsv'}
ck = lambda nm, params, body, spec, ret='void': u.check(nm, params, body, spec, ret)


def C(v, o, t, out=False):
    return Vn(v.cell(o, c, 'out' if out else 'in') for c in CS[t])


def is_(v, t, want, o='o'):
    return v.eqv('', C(v, o, t, True), want, o, names=CS[t])


def part(x, y):
    """x modulo y, in [0, y)"""
    return x - y * fn('floor', x / y)


for t, cs in CS.items():
    n = len(cs)
    ps = ' '.join('x%s:R' % c for c in cs)
    args = ', '.join('x' + c for c in cs)
    for nm, body in (('ctor', 'o = %s(%s);' % (t, args)), ('set', 'o.set(%s);' % args)):
        ck(t + '_' + nm, ps + ' o:' + t, body, lambda v, t=t, cs=cs: is_(v, t, Vn(v.arg('x' + c) for c in cs)))
    ck(t + '_set_colour', 'a:c%s o:%s' % (t, t), 'o.set(a);', lambda v, t=t: is_(v, t, C(v, 'a', t)))
    ck(t + '_cast', 'a:c%s o:%s' % (t, t), 'o = a.template cast<R>();', lambda v, t=t: is_(v, t, C(v, 'a', t)))
    same = lambda v, t=t: all_(*[x.eq(y) for x, y in zip(C(v, 'a', t), C(v, 'b', t))])
    ck(t + '_eq', 'a:c%s b:c%s' % (t, t), 'return a == b;', lambda v, same=same: [Eq('==', v.ret, same(v))], 'bool')
    ck(t + '_ne', 'a:c%s b:c%s' % (t, t), 'return a != b;', lambda v, same=same: [Eq('!=', v.ret, ~same(v))], 'bool')
    for i in range(n):
        ck('%s_data_%d' % (t, i), 'a:c' + t, 'return a.data()[%d];' % i, lambda v, t=t, i=i: [Eq('data', v.ret, C(v, 'a', t)[i])], 'R')
        ck('%s_data_write_%d' % (t, i), 'k:R o:' + t, 'o.data()[%d] = k;' % i, lambda v, t=t, i=i: is_(v, t, Vn(v.arg('k') if j == i else x for j, x in enumerate(C(v, 'o', t)))))
    for nm, (r, g, b) in {'Black': (0, 0, 0), 'White': (1, 1, 1), 'Red': (1, 0, 0), 'Green': (0, 1, 0), 'Blue': (0, 0, 1)}.items():
        want = [r, g, b, 1][:n]
        if t == 'HSV':
            want = {'Black': (0, 0, 0), 'White': (0, 0, 1), 'Red': (0, 1, 1), 'Green': (120, 1, 1), 'Blue': (240, 1, 1)}[nm]
        ck('%s_%s' % (t, nm), 'o:' + t, 'o = %s::%s;' % (t, nm), lambda v, t=t, want=want: is_(v, t, V(*want)))
    if t == 'HSV':
        continue
    rgb = lambda v, o, t=t: list(C(v, o, t))[:3]
    al = lambda v, t=t: list(C(v, 'a', t))[3:]
    for op, sg in (('+', 1), ('-', -1)):
        spec = lambda v, t=t, sg=sg, rgb=rgb, al=al: is_(v, t, Vn([x + y * sg for x, y in zip(rgb(v, 'a'), rgb(v, 'b'))] + al(v)))
        nm = {'+': 'plus', '-': 'minus'}[op]
        ck('%s_%s' % (t, nm), 'a:c%s b:c%s o:%s' % (t, t, t), 'o = a %s b;' % op, spec)
        ck('%s_%s_assign' % (t, nm), 'a:c%s b:c%s o:%s' % (t, t, t), 'o = a; o %s= b;' % op, spec)
    ck(t + '_neg', 'a:c%s o:%s' % (t, t), 'o = -a;', lambda v, t=t, rgb=rgb, al=al: is_(v, t, Vn([-x for x in rgb(v, 'a')] + al(v))))
    for op, f in (('*', lambda x, k: x * k), ('/', lambda x, k: x / k)):
        spec = lambda v, t=t, f=f, rgb=rgb, al=al: dict(pre=v.arg('k').ne(0), claims=is_(v, t, Vn([f(x, v.arg('k')) for x in rgb(v, 'a')] + al(v))))
        nm = {'*': 'times', '/': 'over'}[op]
        ck('%s_%s' % (t, nm), 'a:c%s k:R o:%s' % (t, t), 'o = a %s k;' % op, spec)
        ck('%s_%s_assign' % (t, nm), 'a:c%s k:R o:%s' % (t, t), 'o = a; o %s= k;' % op, spec)
    for nm, b in (('interp', 'o.interp(a, b, k);'), ('fromInterp', 'o = %s::fromInterp(a, b, k);' % t)):
        ck('%s_%s' % (t, nm), 'a:c%s b:c%s k:R o:%s' % (t, t, t), b, lambda v, t=t: is_(v, t, C(v, 'a', t) + (C(v, 'b', t) - C(v, 'a', t)) * v.arg('k')))
ck('RGB_grey', 'k:R o:RGB', 'o = RGB(k);', lambda v: is_(v, 'RGB', V(*[v.arg('k')] * 3)))
ck('RGBA_grey', 'k:R l:R o:RGBA', 'o = RGBA(k, l);', lambda v: is_(v, 'RGBA', V(*[v.arg('k')] * 3 + [v.arg('l')])))
ck('RGBA_grey_default', 'k:R o:RGBA', 'o = RGBA(k);', lambda v: is_(v, 'RGBA', V(*[v.arg('k')] * 3 + [1])))
ck('RGBA_default', 'x:R y:R z:R o:RGBA', 'o = RGBA(x, y, z);', lambda v: is_(v, 'RGBA', V(v.arg('x'), v.arg('y'), v.arg('z'), 1)))
ck('RGBA_set_default', 'x:R y:R z:R o:RGBA', 'o.set(x, y, z);', lambda v: is_(v, 'RGBA', V(v.arg('x'), v.arg('y'), v.arg('z'), 1)))
i2 = lambda v, n: N('i2f', v.arg(n)) / 255
ck('RGB_int', 'x:int y:int z:int o:RGB', 'o = RGB(x, y, z);', lambda v: is_(v, 'RGB', V(*[i2(v, n) for n in 'xyz'])))
ck('RGBA_int', 'x:int y:int z:int t:int o:RGBA', 'o = RGBA(x, y, z, t);', lambda v: is_(v, 'RGBA', V(*[i2(v, n) for n in 'xyzt'])))
ck('RGBA_int_default', 'x:int y:int z:int o:RGBA', 'o = RGBA(x, y, z);', lambda v: is_(v, 'RGBA', V(*[i2(v, n) for n in 'xyz'] + [1])))
ck('RGB_toRGBA', 'a:cRGB k:R o:RGBA', 'o = a.toRGBA(k);', lambda v: is_(v, 'RGBA', Vn(list(C(v, 'a', 'RGB')) + [v.arg('k')])))
ck('RGB_toRGBA_default', 'a:cRGB o:RGBA', 'o = a.toRGBA();', lambda v: is_(v, 'RGBA', Vn(list(C(v, 'a', 'RGB')) + [q(1)])))
ck('RGBA_toRGB', 'a:cRGBA o:RGB', 'o = a.toRGB();', lambda v: is_(v, 'RGB', Vn(list(C(v, 'a', 'RGBA'))[:3])))


def hue(r, g, b, hi, lo):
    """hue in degrees of a colour that is not grey"""
    d = hi - lo
    h = ite(hi.eq(r), (g - b) / d, ite(hi.eq(g), (b - r) / d + 2, (r - g) / d + 4))
    return 60 * ite(h < 0, h + 6, h)


def hsv(r, g, b):
    hi, lo = vmax(vmax(r, g), b), vmin(vmin(r, g), b)
    grey = hi.eq(lo)
    return V(ite(grey, q(0), hue(r, g, b, hi, lo)), ite(grey, q(0), (hi - lo) / hi), hi)


def rgb(h, s, x):
    """hexagonal cone: each channel is full for a third of the circle, empty for a third and a ramp between them"""
    out = []
    for k in (0, 4, 2):
        t = part(h / 60 + k, q(6))
        ramp = ite(t < 1, q(0), ite(t < 2, t - 1, ite(t < 4, q(1), ite(t < 5, 5 - t, q(0)))))
        out.append(x * (1 - s * ramp))
    return Vn(out)


nonneg = lambda v, t: all_(*[x >= 0 for x in list(C(v, 'a', t))[:3]])
for t in ('RGB', 'RGBA'):
    f = u.fn(t + '_toHSV', 'a:c%s o:HSV' % t, 'o = a.toHSV();')
    for i in range(3):
        u.ob('%s_toHSV_%s' % (t, 'hsv'[i]), f, lambda v, t=t, i=i: dict(pre=nonneg(v, t), claims=[is_(v, 'HSV', hsv(*list(C(v, 'a', t))[:3]))[i]]))
    u.ob(t + '_toHSV_range', f, lambda v, t=t: dict(pre=nonneg(v, t), claims=[Holds('hue at least 0', v.cell('o', 'h', 'out') >= 0), Holds('hue below 360', v.cell('o', 'h', 'out') < 360), Holds('saturation at least 0', v.cell('o', 's', 'out') >= 0), Holds('saturation at most 1', v.cell('o', 's', 'out') <= 1)]))
f = u.fn('HSV_toRGB', 'a:cHSV o:RGB', 'o = a.toRGB();')
g = u.fn('HSV_toRGBA', 'a:cHSV k:R o:RGBA', 'o = a.toRGBA(k);')
for i in range(3):
    u.ob('HSV_toRGB_' + 'rgb'[i], f, lambda v, i=i: [is_(v, 'RGB', rgb(*C(v, 'a', 'HSV')))[i]])
    u.ob('HSV_toRGBA_' + 'rgb'[i], g, lambda v, i=i: [is_(v, 'RGBA', Vn(list(rgb(*C(v, 'a', 'HSV'))) + [v.arg('k')]))[i]])
u.ob('HSV_toRGBA_a', g, lambda v: [Eq('a', v.cell('o', 'a', 'out'), v.arg('k'), ('o', 'a'))])
ck('HSV_toRGBA_default', 'a:cHSV o:RGBA', 'o = a.toRGBA();', lambda v: [Eq('a', v.cell('o', 'a', 'out'), q(1), ('o', 'a'))])
f = u.fn('round_trip_RGB', 'a:cRGB o:RGB', 'o = a.toHSV().toRGB();')
for i in range(3):
    u.ob('round_trip_RGB_' + 'rgb'[i], f, lambda v, i=i: dict(pre=nonneg(v, 'RGB'), claims=[is_(v, 'RGB', C(v, 'a', 'RGB'))[i]]))
f = u.fn('round_trip_HSV', 'a:cHSV o:HSV', 'o = a.toRGB().toHSV();')
for i in range(3):
    def rt(v, i=i):
        h, s, x = C(v, 'a', 'HSV')
        return dict(pre=(h >= 0) & (h < 360) & (s > 0) & (s <= 1) & (x > 0), claims=[is_(v, 'HSV', V(h, s, x))[i]])
    u.ob('round_trip_HSV_' + 'hsv'[i], f, rt)
for nm, b in (('interp', 'o.interp(a, b, k);'), ('fromInterp', 'o = HSV::fromInterp(a, b, k);')):
    f = u.fn('HSV_' + nm, 'a:cHSV b:cHSV k:R o:HSV', b)
    for i in range(3):
        def hi(v, i=i):
            a, b, k = C(v, 'a', 'HSV'), C(v, 'b', 'HSV'), v.arg('k')
            d = b[0] - a[0]
            d = d + ite(d > 180, q(-360), ite(d < -180, q(360), q(0)))
            want = a + (b - a) * k
            want = Vn([part(a[0] + d * k, q(360))] + list(want)[1:])
            return dict(pre=all_(*[(x >= 0) & (x < 360) for x in (a[0], b[0])]), claims=[is_(v, 'HSV', want)[i]])
        u.ob('HSV_%s_%s' % (nm, 'hsv'[i]), f, hi)


def run(tier, work, a):
    import report
    import frange
    return report.run(u, tier, work, a, '', [frange.defined_everywhere(['HSV_toRGB', 'HSV_toRGBA', 'RGB_toHSV', 'RGBA_toHSV', 'HSV_interp'])] if a.only is None else [])
