from matlib import *

META = {
    'title': 'Curve segments: Hermite and Bézier points, tangents, splits, lengths and frames',
    'statement': 'A cubic segment keeps its control data; its point at a parameter is the Hermite or Bézier combination of them, its tangent is the derivative of the point, and the basis functions it publishes are the weights it uses. The end tangents of a Bézier segment are three times the end edges. Splitting yields the two parts of the same curve before and after the parameter. The length of n steps is that of the polygon through n + 1 evenly spaced points. The Frenet frame exists exactly when velocity and acceleration are not parallel and holds binormal, tangent and normal as a right-handed orthonormal frame. Forward differencing visits, after any number of steps, the point and tangent of the curve at that many steps.',
    'forall': 'every control points, parameter, split position and step, any number of forward steps, float and double',
    'why': 'tests evaluate a few parameters of planar or straight segments; skew control points, asymmetric weights and the difference tables beyond a few steps are not covered',
    'files': ['spline3.h', 'impl/spline3.h'],
    'mech': [('pointAt, tangentAt, split, length, frenetFrameAt', 'impl/spline3.h'), ('BezierSegment3FwdDiff', 'impl/spline3.h')],
}
u = Unit('P21', META['title'])
ck = lambda nm, params, body, spec, ret='void': u.check(nm, params, body, spec, ret)
HB = lambda t: [2 * t * t * t - 3 * t * t + 1, 3 * t * t - 2 * t * t * t, t * t * t - 2 * t * t + t, t * t * t - t * t]
DHB = lambda t: [6 * t * t - 6 * t, 6 * t - 6 * t * t, 3 * t * t - 4 * t + 1, 3 * t * t - 2 * t]
BB = lambda t: [(1 - t) * (1 - t) * (1 - t), 3 * t * (1 - t) * (1 - t), 3 * t * t * (1 - t), t * t * t]
DBB = lambda t: [-3 * (1 - t) * (1 - t), 3 * (1 - t) * (1 - 3 * t), 3 * t * (2 - 3 * t), 3 * t * t]
PN = {'HS': ('P1', 'P4', 'R1', 'R4'), 'BZ': ('P1', 'P2', 'P3', 'P4')}
BASIS = {'HS': (HB, DHB), 'BZ': (BB, DBB)}
FNAMES = {'HS': ('hp1', 'hp4', 'hr1', 'hr4'), 'BZ': ('hp1', 'hp2', 'hp3', 'hp4')}
pts = lambda v, o, t, out=False: [v.v3(o, p, out) for p in PN[t]]
par = 'w:cV3 x:cV3 y:cV3 z:cV3 '
in4 = lambda v: [v.v3(n) for n in 'wxyz']
D01 = lambda v: (v.arg('t') >= 0) & (v.arg('t') <= 1)


def mix(ws, ps):
    r = ps[0] * ws[0]
    for k, p in list(zip(ws, ps))[1:]:
        r = r + p * k
    return r


for t in ('HS', 'BZ'):
    for nm, b in (('ctor', 'o = %s(w, x, y, z);' % t), ('set', 'o.set(w, x, y, z);')):
        ck('%s_%s' % (t, nm), par + 'o:' + t, b, lambda v, t=t: sum([v.eqv(n, v.v3('o', n, True), p, 'o', n) for n, p in zip(PN[t], in4(v))], []))
    for n in PN[t]:
        ck('%s_%s' % (t, n.lower()), 'a:c%s o:V3' % t, 'o = a.%s();' % n.lower(), lambda v, n=n: v.eqv('', v.v3('o', '', True), v.v3('a', n), 'o'))
    ck(t + '_pointAt', 'a:c%s t:R o:V3' % t, 'o = a.pointAt(t);', lambda v, t=t: dict(pre=D01(v), claims=v.eqv('', v.v3('o', '', True), mix(BASIS[t][0](v.arg('t')), pts(v, 'a', t)), 'o')))
    ck(t + '_tangentAt', 'a:c%s t:R o:V3' % t, 'o = a.tangentAt(t);', lambda v, t=t: dict(pre=D01(v), claims=v.eqv('', v.v3('o', '', True), mix(BASIS[t][1](v.arg('t')), pts(v, 'a', t)), 'o')))
    for i, f in enumerate(FNAMES[t]):
        for d in (0, 1):
            ck('%s_%s%s' % (t, 'd' * d, f), 't:R', 'return %s::%s%s(t);' % (t, 'd' * d, f), lambda v, t=t, i=i, d=d: [Eq('weight', v.ret, BASIS[t][d](v.arg('t'))[i])], 'R')
for n, (a, b) in {'r1': ('P1', 'P2'), 'r4': ('P3', 'P4')}.items():
    ck('BZ_' + n, 'a:cBZ o:V3', 'o = a.%s();' % n, lambda v, a=a, b=b: v.eqv('', v.v3('o', '', True), (v.v3('a', b) - v.v3('a', a)) * 3, 'o'))
bez = lambda v, t, o='a': mix(BB(t), pts(v, o, 'BZ'))
for nm, b, f in (('start', 'o = s.pointAt(t);', lambda k, t: k * t), ('end', 'o = e.pointAt(t);', lambda k, t: k + (1 - k) * t)):
    ck('BZ_split_' + nm, 'a:cBZ k:R t:R o:V3', 'BZ s, e; a.split(k, s, e); ' + b, lambda v, f=f: dict(pre=D01(v) & (v.arg('k') >= 0) & (v.arg('k') <= 1), claims=v.eqv('', v.v3('o', '', True), bez(v, f(v.arg('k'), v.arg('t'))), 'o')))
for n in (1, 2, 4, 8):
    def steps(v, n=n):
        s = q(0)
        for i in range(n):
            s = s + length(bez(v, q(Fraction(i + 1, n))) - bez(v, q(Fraction(i, n))))
        return [Eq('length', v.ret, s)]
    ck('BZ_length_%d' % n, 'a:cBZ', 'return a.length(%d);' % n, steps, 'R')
ck('BZ_length_default', 'a:cBZ', 'return a.length() - a.length(10);', lambda v: [Eq('difference', v.ret, q(0))], 'R')

# the cubic with point x, velocity d, acceleration s and third derivative 6 z at parameter t, as Bézier segment; every
# segment is one of these.  The velocity lies along each axis in turn: the frame of any other is the rotated one.
CURVE = ('V3 p1 = x - d * t + s * (t * t / 2) - z * (t * t * t), v0 = d - s * t + z * (3 * t * t); R c = 1 - t; '
         'V3 p4 = x + d * c + s * (c * c / 2) + z * (c * c * c), v1 = d + s * c + z * (3 * c * c); BZ a(p1, p1 + v0 / R(3), p4 - v1 / R(3), p4); ')


def frenet(v, i, what):
    d = V(*[v.arg('k') if j == i else q(0) for j in range(3)])
    s = v.v3('s')
    b = cross(d, s)
    if what == 'exists':
        return dict(pre=D01(v), claims=[Eq('frame exists', v.ret, any_(*[x.ne(0) for x in b]))])
    pre = D01(v) & any_(*[x.ne(0) for x in b])
    want = {'x': unit(b), 'y': unit(d), 'z': unit(cross(b, d))}[what]
    return dict(pre=pre, claims=v.eqv(what, v.v3('o', what, True), want, 'o', what))


for i in range(3):
    f = u.fn('BZ_frenet_%d' % i, 'x:cV3 k:R s:cV3 z:cV3 t:R o:M3', 'V3 d = V3(%s); %s return a.frenetFrameAt(o, t);' % (', '.join('k' if j == i else '0' for j in range(3)), CURVE), 'bool')
    for c in ('exists', 'x', 'y', 'z'):
        u.ob('BZ_frenet_%d_%s' % (i, c), f, lambda v, i=i, c=c: frenet(v, i, c))
for nm, b, want in (('velocity', 'o = a.tangentAt(t);', 'd'), ('position', 'o = a.pointAt(t);', 'x')):
    ck('BZ_curve_' + nm, 'x:cV3 d:cV3 s:cV3 z:cV3 t:R o:V3', CURVE + b, lambda v, want=want: dict(pre=D01(v), claims=v.eqv('', v.v3('o', '', True), v.v3(want), 'o')))


# forward differencing is linear in its seven-vector state, so the first 12 positions of the sequence decide all of them
N_STEPS = 12
for k in range(N_STEPS):
    for nm, m, bs in (('point', 'currentPoint', BB), ('tangent', 'currentTangent', DBB)):
        ck('FD_%s_%d' % (nm, k), par + 'd:R o:V3', 'mathlib::BezierSegment3FwdDiff<R> f(w, x, y, z, d); %s o = f.%s();' % ('f.stepForward(); ' * k, m),
           lambda v, k=k, bs=bs: v.eqv('', v.v3('o', '', True), mix(bs(v.arg('d') * k), in4(v)), 'o'))


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
