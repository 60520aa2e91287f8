from matlib import *
from quatlib import *

META = {
    'title': 'Spherical interpolation follows the great arc',
    'statement': 'Quaternion slerp gives the point of the great arc at the given weight, along the shorter arc (slerpNoInvert: the arc as given), and the normalised blend when the ends nearly coincide; weight 0 and 1 give the ends; squad is slerp of the two slerps with weight 2w(1-w), and the three-quaternion form gives the squad control point; slerpMaxAngle advances from the start towards the target along the shorter rotation by at most the given angle and reaches the target when it is closer; matrix slerps are the quaternion slerps of the rotations; vector slerp turns the first vector towards the second in their plane by the given fraction of the angle between them (acute or obtuse) with linearly interpolated length, and slerpMaxAngle turns by at most the given angle; plane matrices interpolate their angles around the circle; the from-forms agree with the setters.',
    'forall': 'every pair of rotations or vectors, every weight and maximal angle, float and double; between the documented thresholds (scalar product 0.95, sine 0.05) of the blend fallback',
    'why': 'tests interpolate between one pair of axis-aligned rotations; the shorter-arc flip, obtuse angles and unequal lengths need other inputs',
    'files': ['quat.h', 'vec3.h', 'impl/quat.h', 'impl/vec3.h', 'impl/mat2.h', 'impl/mat3.h', 'impl/mat34.h', 'impl/mat4.h'],
    'mech': [('slerp, slerpMaxAngle, slerpNoInvert, set(from,to,a,b,weight), set(from,via,to)', 'impl/quat.h'), ('slerp, slerpMaxAngle', 'impl/vec3.h')],
}
u = Unit('P12', META['title'])
q4 = lambda v, o, out=False: v.v4(o, out=out)
A, B = (lambda v: q4(v, 'a')), (lambda v: q4(v, 'b'))
LO, HI = q('9499/10000'), q('9501/10000')


def arcs(v, flip, end=None):
    a, b, k = A(v), B(v), v.arg('k') if end is None else q(end)
    d = dot(a, b)
    pre = (d > -1) & (d < 1)
    if flip:
        neg = d < 0
        b = vite(neg, -b, b)
        d = ite(neg, -d, d)
    pre = pre & ((d < LO) | (d > HI)) & (k >= 0) & (k <= 1)
    return dict(pre=pre, claims=v.eqv('', q4(v, 'o', True), vite(d < LO, arc(a, b, d, k), nlerp(a, b, k)), 'o'))


for nm, fl in (('slerp', True), ('slerpNoInvert', False)):
    u.check(nm, 'a:cQ b:cQ k:R o:Q', 'o.%s(a, b, k);' % nm, lambda v, fl=fl: arcs(v, fl))
    u.check(nm + '_from', 'a:cQ b:cQ k:R o:Q', 'o = Q::from%s(a, b, k);' % (nm[0].upper() + nm[1:]), lambda v, fl=fl: arcs(v, fl))


def ends(v, k, flip):
    a, b = A(v), B(v)
    d = dot(a, b)
    want = a if k == 0 else vite(d < 0, -b, b) if flip else b
    ad = ite(d < 0, -d, d) if flip else d
    return dict(pre=(d > -1) & (d < 1) & (ad < LO), claims=v.eqv('', q4(v, 'o', True), want, 'o'))


for k in (0, 1):
    for nm, fl in (('slerp', True), ('slerpNoInvert', False)):
        u.check('%s_at_%d' % (nm, k), 'a:cQ b:cQ o:Q', 'o.%s(a, b, R(%d));' % (nm, k), lambda v, k=k, fl=fl: ends(v, k, fl))

    def near(v, k=k):
        a, b = A(v), B(v)
        return dict(pre=(dot(a, b) > HI), claims=v.eqv('', q4(v, 'o', True), qunit(b if k else a), 'o'))
    u.check('slerp_near_at_%d' % k, 'a:cQ b:cQ o:Q', 'o.slerp(a, b, R(%d));' % k, near)

# squad: the composition spelled out with the library's own slerp, which the checks above settle
for f, b in (('set', 'o.set(a, b, c, d, k);'), ('from', 'o = Q::from(a, b, c, d, k);')):
    u.check('squad_' + f, 'a:cQ b:cQ c:cQ d:cQ k:R o:Q n:Q', b + ' Q e, g; e.slerpNoInvert(a, b, k); g.slerpNoInvert(c, d, k); n.slerpNoInvert(e, g, R(2) * k * (R(1) - k));',
            lambda v: v.eqv('', q4(v, 'o', True), q4(v, 'n', True), 'o'))
for f, b in (('set', 'o.set(a, b, c);'), ('from', 'o = Q::from(a, b, c);')):
    u.check('control_' + f, 'a:cQ b:cQ c:cQ o:Q n:Q', b + ' Q e = Q::log(b.inverse() * a), g = Q::log(b.inverse() * c); Q h(R(-0.25) * (e.x + g.x), R(-0.25) * (e.y + g.y), R(-0.25) * (e.z + g.z), R(0), false); n = b * Q::exp(h);',
            lambda v: v.eqv('', q4(v, 'o', True), q4(v, 'n', True), 'o'))


def maxangle(v):
    a, b, g = A(v), B(v), v.arg('g')
    f = qmul(qconj(a), b)
    f = vite(f[3] < 0, -f, f)
    h = vmin(2 * fn('acos', f[3]), g)
    return dict(pre=(f[3] < 1) & (len2(Vn(f[:3])) > q('1/900000')) & (g >= 0), claims=v.eqv('', q4(v, 'o', True), qmul(a, axisq(Vn(f[:3]), h)), 'o'))


def maxangle_none(v):
    a, b, g = A(v), B(v), v.arg('g')
    f = qmul(qconj(a), b)
    return dict(pre=len2(Vn(f[:3])).eq(0) & (f[3] * f[3] <= 1) & (g >= 0), claims=v.eqv('', q4(v, 'o', True), a, 'o'))


for f, b in (('set', 'o.slerpMaxAngle(a, b, g);'), ('from', 'o = Q::fromSlerpMaxAngle(a, b, g);')):
    u.check('maxAngle_' + f, 'a:cQ b:cQ g:R o:Q', b, maxangle)
    u.check('maxAngle_same_' + f, 'a:cQ b:cQ g:R o:Q', b, maxangle_none)
u.check('maxAngle_zero', 'a:cQ b:cQ o:Q', 'o.slerpMaxAngle(a, b, R(0));', lambda v: v.eqv('', q4(v, 'o', True), A(v), 'o'))

for t in ('M3', 'M34'):
    for nm, g in (('slerp', 'k'), ('slerpMaxAngle', 'k')):
        F = nm[0].upper() + nm[1:]
        rs = '.rs' if t == 'M34' else ''
        for f, b in (('set', 'm.%s(a, b, k);' % nm), ('from', 'm = %s::from%s(a, b, k);' % (t, F))):
            u.check('%s_%s_%s' % (t, nm, f), 'a:c%s b:c%s k:R m:%s n:M3' % (t, t, t), b + ' Q c, d, e; c.set(a%s); d.set(b%s); e.%s(c, d, k); n.set(e);' % (rs, rs, nm),
                    lambda v, t=t: (v.eqm('', v.m4('m', out=True), hom3(v.m3('n', out=True)), 'm') if t == 'M4' else eqm(v, t, 'm', v.m3('n', out=True)) + (v.eqv('t', v.v3('m', 't', out=True), V(0, 0, 0), 'm', 't') if t == 'M34' else [])))


def vs(v, maxa=False):
    a, b, k = v.v3('a'), v.v3('b'), v.arg('k')
    la, lb = length(a), length(b)
    n = cross(a, b) / (la * lb)
    s = length(n)
    th = fn('atan2', s, dot(a, b) / (la * lb))
    if maxa:
        g = vmin(th, k)
        r = g / th
        pre = la.ne(0) & lb.ne(0) & s.ne(0) & (k > 0)
    else:
        r = k
        g = th * k
        pre = la.ne(0) & lb.ne(0) & (s > q('501/10000')) & k.ne(0) & k.ne(1)
    w_ = (qmat(axisq(n, g)) if maxa else rodrigues(n / s, g)) * (a / la)
    return dict(pre=pre, claims=v.eqv('', v.v3('o', out=True), w_ * (la + (lb - la) * r), 'o'))


for f, b in (('set', 'o.slerp(a, b, k);'), ('from', 'o = V3::fromSlerp(a, b, k);')):
    P = 'a:cV3 b:cV3 k:R o:V3'
    lerp = lambda v: v.v3('a') + (v.v3('b') - v.v3('a')) * v.arg('k')
    u.check('vec_' + f, P, b, vs)
    u.check('vec_zero_' + f, P, b, lambda v, lerp=lerp: dict(pre=length(v.v3('a')).eq(0) | length(v.v3('b')).eq(0), claims=v.eqv('', v.v3('o', out=True), lerp(v), 'o')))
    for k in (0, 1):
        u.check('vec_at_%d_%s' % (k, f), 'a:cV3 b:cV3 o:V3', b.replace('k)', 'R(%d))' % k), lambda v, k=k: v.eqv('', v.v3('o', out=True), v.v3('b' if k else 'a'), 'o'))

    def para(v, lerp=lerp):
        a, b = v.v3('a'), v.v3('b')
        n = cross(a, b) / (length(a) * length(b))
        return dict(pre=length(a).ne(0) & length(b).ne(0) & (length(n) < q('499/10000')) & v.arg('k').ne(0) & v.arg('k').ne(1) & (dot(a, b) > 0), claims=v.eqv('', v.v3('o', out=True), lerp(v), 'o'))
    u.check('vec_parallel_' + f, P, b, para)
for f, b in (('set', 'o.slerpMaxAngle(a, b, k);'), ('from', 'o = V3::fromSlerpMaxAngle(a, b, k);')):
    u.check('vec_max_' + f, P, b, lambda v: vs(v, True))
    u.check('vec_max_zero_' + f, 'a:cV3 b:cV3 o:V3', b.replace('k)', 'R(0))'), lambda v: v.eqv('', v.v3('o', out=True), v.v3('a'), 'o'))
    u.check('vec_max_null_' + f, P, b, lambda v: dict(pre=(v.arg('k') > 0), claims=[Holds('zero start gives the end', ~length(v.v3('a')).eq(0) | all_(*[x.eq(y) for x, y in zip(v.v3('o', out=True), v.v3('b'))])), Holds('zero end gives the start', length(v.v3('a')).eq(0) | ~length(v.v3('b')).eq(0) | all_(*[x.eq(y) for x, y in zip(v.v3('o', out=True), v.v3('a'))]))]))


# plane rotations: the circular interpolation (P03) of the two angles
for nm in ('slerp', 'slerpMaxAngle'):
    cl = {'slerp': 'clerp', 'slerpMaxAngle': 'clerpMaxAngle'}[nm]
    for f, b in (('set', 'o.%s(a, b, k);' % nm), ('from', 'o = M2::from%s(a, b, k);' % (nm[0].upper() + nm[1:]))):
        u.check('M2_%s_%s' % (nm, f), 'a:cM2 b:cM2 k:R o:M2 n:M2', b + ' R g = mathlib::%s<R>(std::atan2(a.x.y, a.x.x), std::atan2(b.x.y, b.x.x), k); n.set(g);' % cl, lambda v: v.eqm('', v.m2('o', out=True), v.m2('n', out=True), 'o'))
u.check('M2_angle', 'a:cM2', 'return a.angle();', lambda v: [Eq('angle', v.ret, fn('atan2', v.m2('a')[1][0], v.m2('a')[0][0]))], 'R')
u.check('M2_slerp_start', 'a:cM2 b:cM2 o:M2', 'o.slerp(a, b, R(0));', lambda v: dict(pre=length(V(v.m2('a')[0][0], v.m2('a')[1][0])).ne(0), claims=v.eqv('first column', Vn(v.m2('o', out=True)[i][0] for i in range(2)), unit(V(v.m2('a')[0][0], v.m2('a')[1][0])), 'o', 'x')))


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
