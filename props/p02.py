from report import *

META = {
    'title': 'Vector normalisation, rotation, mirroring, polar form and axis selection',
    'statement': 'Normalising keeps the direction and gives the requested length (the zero vector stays zero) and reports the previous length; rotating by an angle is the right-handed rotation about the named axis and keeps length; mirroring negates exactly the named coordinate; polar construction and angle extraction are inverse to each other. Every in-place operation and its value-returning twin produce the same result, and dominant/minor axis queries name an axis of largest/smallest magnitude.',
    'forall': 'every vector, every angle, every target length, every valid coordinate, float and double',
    'why': 'tests rotate or normalise a handful of axis-aligned vectors by round angles; sign or axis mistakes off those points and disagreement between twins are not exercised',
    'files': ['vec2.h', 'vec3.h', 'vec4.h', 'impl/vec2.h', 'impl/vec3.h', 'impl/vec4.h'],
    'mech': [('normalize/rotate/mirror/setAngle and twins', 'impl/vec2.h'), ('normalize/rotate/mirror and twins', 'impl/vec3.h')],
}
u = Unit('P02', META['title'])
C = 'mathlib::Coord::'
I = {'X': 0, 'Y': 1, 'Z': 2, 'W': 3}
G = {'V2': lambda v, o, out=False: v.v2(o, out=out), 'V3': lambda v, o, out=False: v.v3(o, out=out), 'V4': lambda v, o, out=False: v.v4(o, out=out)}


def neg_at(a, i):
    return Vn(-x if j == i else x for j, x in enumerate(a))


for t in ('V2', 'V3'):
    g = G[t]
    n = int(t[1])
    u.check(t + '_normalize', 'a:%s k:R' % t, 'return a.normalize(k);', lambda v, g=g: v.eqv('', g(v, 'a', True), unit(g(v, 'a'), v.arg('k')), 'a') + [Eq('returned length', v.ret, length(g(v, 'a')))], ret='R')
    u.check(t + '_normalize1', 'a:%s' % t, 'return a.normalize();', lambda v, g=g: v.eqv('', g(v, 'a', True), unit(g(v, 'a')), 'a') + [Eq('returned length', v.ret, length(g(v, 'a')))], ret='R')
    u.check(t + '_normalized', 'a:c%s k:R o:%s' % (t, t), 'o = a.normalized(k);', lambda v, g=g: v.eqv('', g(v, 'o', True), unit(g(v, 'a'), v.arg('k')), 'o'))
    u.check(t + '_normalized1', 'a:c%s o:%s' % (t, t), 'o = a.normalized();', lambda v, g=g: v.eqv('', g(v, 'o', True), unit(g(v, 'a')), 'o'))
    for c in 'XYZ'[:n]:
        i = I[c]
        u.check('%s_mirror_%s' % (t, c), 'a:%s' % t, 'a.mirror(%s%s);' % (C, c), lambda v, g=g, i=i: v.eqv('', g(v, 'a', True), neg_at(g(v, 'a'), i), 'a'))
        u.check('%s_mirrored_%s' % (t, c), 'a:c%s o:%s' % (t, t), 'o = a.mirrored(%s%s);' % (C, c), lambda v, g=g, i=i: v.eqv('', g(v, 'o', True), neg_at(g(v, 'a'), i), 'o'))

    def extremal(major):
        def spec(v, g=g, n=n):
            ab = [vabs(x) for x in g(v, 'a')]
            r = []
            for i in range(n):
                best = all_(*[(ab[i] >= ab[j]) if major else (ab[i] <= ab[j]) for j in range(n)])
                r.append(Holds('axis %s is %s when named' % ('xyz'[i], 'dominant' if major else 'minor'), ~v.ret.eq(ic(i)) | best))
            r.append(Holds('a valid axis is named', any_(*[v.ret.eq(ic(i)) for i in range(n)])))
            return r
        return spec
    u.check(t + '_majorCoord', 'a:c%s' % t, 'return (int)a.majorCoord();', extremal(True), ret='int')
    u.check(t + '_minorCoord', 'a:c%s' % t, 'return (int)a.minorCoord();', extremal(False), ret='int')

# planar rotation
u.check('V2_rotate', 'a:V2 t:R', 'a.rotate(t);', lambda v: v.eqv('', v.v2('a', out=True), rot2(v.arg('t')) * v.v2('a'), 'a'))
u.check('V2_rotated', 'a:cV2 t:R o:V2', 'o = a.rotated(t);', lambda v: v.eqv('', v.v2('o', out=True), rot2(v.arg('t')) * v.v2('a'), 'o'))
u.check('V2_rotate_keeps_length', 'a:cV2 t:R', 'return a.rotated(t).lengthSqr();', lambda v: [Eq('lengthSqr', v.ret, len2(v.v2('a')))], ret='R')
u.check('V2_rotate_inverse', 'a:cV2 t:R o:V2', 'o = a.rotated(t).rotated(-t);', lambda v: v.eqv('', v.v2('o', out=True), v.v2('a'), 'o'))
u.check('V2_rotate_compose', 'a:cV2 t:R s:R o:V2', 'o = a.rotated(t).rotated(s);', lambda v: v.eqv('', v.v2('o', out=True), rot2(v.arg('t') + v.arg('s')) * v.v2('a'), 'o'))
for k, f in (('90', lambda a: V(-a[1], a[0])), ('180', lambda a: V(-a[0], -a[1])), ('270', lambda a: V(a[1], -a[0]))):
    u.check('V2_rotate' + k, 'a:V2', 'a.rotate%s();' % k, lambda v, f=f: v.eqv('', v.v2('a', out=True), f(v.v2('a')), 'a'))
    u.check('V2_rotated' + k, 'a:cV2 o:V2', 'o = a.rotated%s();' % k, lambda v, f=f: v.eqv('', v.v2('o', out=True), f(v.v2('a')), 'o'))
polar = lambda t, l: V(l * cos(t), l * sin(t))
u.check('V2_setAngle', 'a:V2 t:R l:R', 'a.setAngle(t, l);', lambda v: v.eqv('', v.v2('a', out=True), polar(v.arg('t'), v.arg('l')), 'a'))
u.check('V2_setAngle1', 'a:V2 t:R', 'a.setAngle(t);', lambda v: v.eqv('', v.v2('a', out=True), polar(v.arg('t'), q(1)), 'a'))
u.check('V2_fromAngle', 'o:V2 t:R l:R', 'o = V2::fromAngle(t, l);', lambda v: v.eqv('', v.v2('o', out=True), polar(v.arg('t'), v.arg('l')), 'o'))
u.check('V2_fromAngle1', 'o:V2 t:R', 'o = V2::fromAngle(t);', lambda v: v.eqv('', v.v2('o', out=True), polar(v.arg('t'), q(1)), 'o'))
u.check('V2_angle_roundtrip', 'a:cV2 o:V2', 'o = V2::fromAngle(a.angle(), a.length());', lambda v: {'pre': ~(v.v2('a')[0].eq(0) & v.v2('a')[1].eq(0)), 'claims': v.eqv('', v.v2('o', out=True), v.v2('a'), 'o')})
u.check('V2_angle', 'a:cV2', 'return a.angle();', lambda v: [Eq('angle', v.ret, fn('atan2', v.v2('a')[1], v.v2('a')[0]))], ret='R')

# spatial rotation about axes
for c in 'XYZ':
    u.check('V3_rotate_' + c, 'a:V3 t:R', 'a.rotate(%s%s, t);' % (C, c), lambda v, c=c: v.eqv('', v.v3('a', out=True), ROT[c](v.arg('t')) * v.v3('a'), 'a'))
    u.check('V3_rotated_' + c, 'a:cV3 t:R o:V3', 'o = a.rotated(%s%s, t);' % (C, c), lambda v, c=c: v.eqv('', v.v3('o', out=True), ROT[c](v.arg('t')) * v.v3('a'), 'o'))
    u.check('V3_rotate_inverse_' + c, 'a:cV3 t:R o:V3', 'o = a.rotated(%s%s, t).rotated(%s%s, -t);' % (C, c, C, c), lambda v: v.eqv('', v.v3('o', out=True), v.v3('a'), 'o'))

# dimension changes
drop2 = {'X': lambda a: V(a[1], a[2]), 'Y': lambda a: V(a[0], a[2]), 'Z': lambda a: V(a[0], a[1])}
lift3 = {'X': lambda a: V(0, a[0], a[1]), 'Y': lambda a: V(a[1], 0, a[0]), 'Z': lambda a: V(a[0], a[1], 0)}
for c in 'XYZ':
    u.check('V2_from_V3_' + c, 'a:cV3 o:V2', 'o = V2(a, %s%s);' % (C, c), lambda v, c=c: v.eqv('', v.v2('o', out=True), drop2[c](v.v3('a')), 'o'))
    u.check('V3_from_V2_' + c, 'a:cV2 o:V3', 'o = V3(a, %s%s);' % (C, c), lambda v, c=c: v.eqv('', v.v3('o', out=True), lift3[c](v.v2('a')), 'o'))
    u.check('V3_V2_roundtrip_' + c, 'a:cV2 o:V2', 'o = V3(a, %s%s).toVec2(%s%s);' % (C, c, C, c), lambda v: v.eqv('', v.v2('o', out=True), v.v2('a'), 'o'))
u.check('V2_from_V3', 'a:cV3 o:V2', 'o = V2(a);', lambda v: v.eqv('', v.v2('o', out=True), drop2['Z'](v.v3('a')), 'o'))
u.check('V3_from_V2', 'a:cV2 o:V3', 'o = V3(a);', lambda v: v.eqv('', v.v3('o', out=True), lift3['Z'](v.v2('a')), 'o'))
u.check('V3_toVec2', 'a:cV3 o:V2', 'o = a.toVec2();', lambda v: v.eqv('', v.v2('o', out=True), drop2['Z'](v.v3('a')), 'o'))
v34 = lambda a, k: Vn(list(a) + [w(k)])
u.check('V4_from_V3k', 'a:cV3 k:R o:V4', 'o = V4(a, k);', lambda v: v.eqv('', v.v4('o', out=True), v34(v.v3('a'), v.arg('k')), 'o'))
u.check('V4_from_V3', 'a:cV3 o:V4', 'o = V4(a);', lambda v: v.eqv('', v.v4('o', out=True), v34(v.v3('a'), 1), 'o'))
u.check('V4_set_V3k', 'a:cV3 k:R o:V4', 'o.set(a, k);', lambda v: v.eqv('', v.v4('o', out=True), v34(v.v3('a'), v.arg('k')), 'o'))
u.check('V4_toVec3', 'a:cV4 o:V3', 'o = a.toVec3();', lambda v: v.eqv('', v.v3('o', out=True), V(*v.v4('a')[:3]), 'o'))

# distances
for t in ('V2', 'V3'):
    g = G[t]
    u.check(t + '_distance', 'a:c%s b:c%s' % (t, t), 'return mathlib::distance(a, b);', lambda v, g=g: [Eq('distance', v.ret, length(g(v, 'a') - g(v, 'b')))], ret='R')
    u.check(t + '_distanceSqr', 'a:c%s b:c%s' % (t, t), 'return mathlib::distanceSqr(a, b);', lambda v, g=g: [Eq('distanceSqr', v.ret, len2(g(v, 'a') - g(v, 'b')))], ret='R')
    u.check(t + '_distance_sym', 'a:c%s b:c%s' % (t, t), 'return mathlib::distance(a, b) - mathlib::distance(b, a);', lambda v, g=g: [Eq('symmetry', v.ret, q(0))], ret='R')


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
