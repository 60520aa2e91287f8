from matlib import *
from quatlib import *

META = {
    'title': 'Rotation representations convert without changing the rotation',
    'statement': 'Building a quaternion from an axis and an angle gives the half-angle quaternion about the normalised axis (identity for the zero axis); reading the rotation matrix of a unit quaternion back gives that quaternion or its negative for every rotation including half turns, from Mat3 and from Mat4; toAxisAngle returns the unit axis and the angle that rebuild the quaternion (axis X and angle 0 for no rotation); the quaternion built from two directions turns the first onto the second about their common normal, is the identity for equal directions and a half turn about a perpendicular axis for opposite ones. orthonormalise leaves a rotation as it is and turns any matrix it can read a quaternion from into a right-handed orthonormal frame.',
    'forall': 'every unit quaternion, axis, angle and pair of directions, float and double; axis-angle extraction below a squared sine of half the angle of 1e-6 and direction pairs within 0.3 degrees of parallel may be treated as parallel',
    'why': 'matrix-to-quaternion conversion has four branches chosen by the trace and the largest diagonal entry; tests reach one or two of them with axis-aligned rotations',
    'files': ['quat.h', 'impl/quat.h', 'impl/mat3.h', 'impl/mat4.h'],
    'mech': [('orthonormalise', 'impl/mat3.h'), ('set(const Mat3&), set(const Mat4&), set(axis, angle), set(from, to), toAxisAngle', 'impl/quat.h')],
}
u = Unit('P11', META['title'])
q4 = lambda v, o, out=False: v.v4(o, out=out)
A = lambda v: q4(v, 'a')

for f, b in (('set', 'o.set(a, g);'), ('from', 'o = Q::from(a, g);')):
    u.check('axis_angle_' + f, 'a:cV3 g:R o:Q', b, lambda v: v.eqv('', q4(v, 'o', True), axisq(v.v3('a'), v.arg('g')), 'o'))
u.check('axis_angle_rotation', 'a:cV3 g:R o:M3', 'Q n; n.set(a, g); o.set(n);', lambda v: dict(pre=length(v.v3('a')).ne(0), claims=v.eqm('', v.m3('o', out=True), rodrigues(v.v3('a') / length(v.v3('a')), v.arg('g')), 'o')))
for t in ('M3', 'M4'):
    for f, b in (('set', 'o.set(m);'), ('from', 'o = Q::from(m);')):
        u.check('%s_of_%s' % (f, t), 'a:cQ n:Q o:Q', 'n.set(a); n.normalize(); %s m; m.set(n); %s' % (t, b),
                lambda v: same_rotation('q q^T', q4(v, 'o', True), q4(v, 'n', True)))
u.check('toAxisAngle', 'a:cQ d:V3 g:R&', 'a.toAxisAngle(d, g);', lambda v: dict(
    pre=(A(v)[3] <= 1) & (A(v)[3] >= -1) & len2(A(v)).eq(1) & (len2(Vn(A(v)[:3])) > q('1/900000')),
    claims=v.eqv('axis', v.v3('d', out=True), unit(Vn(A(v)[:3])), 'd') + [Eq('angle', v.r('g', out=True), 2 * fn('acos', A(v)[3]))]))
u.check('toAxisAngle_none', 'a:cQ d:V3 g:R&', 'a.toAxisAngle(d, g);', lambda v: dict(
    pre=(A(v)[3] <= 1) & (A(v)[3] >= -1) & len2(Vn(A(v)[:3])).eq(0),
    claims=v.eqv('axis', v.v3('d', out=True), V(1, 0, 0), 'd') + [Eq('angle', v.r('g', out=True), q(0))]))
u.check('toAxisAngle_rebuild', 'a:cQ o:Q', 'V3 d; R g; a.toAxisAngle(d, g); o.set(d, g);', lambda v: dict(
    pre=(A(v)[3] <= 1) & (A(v)[3] >= -1) & len2(A(v)).eq(1) & (len2(Vn(A(v)[:3])) > q('1/900000')),
    claims=same_rotation('q q^T', q4(v, 'o', True), A(v), 3) + [Holds('same sense', dot(Vn(q4(v, 'o', True)[:3]), Vn(A(v)[:3])) >= 0), Eq('w', q4(v, 'o', True)[3], A(v)[3])]))


def between(v, near):
    f, t = v.v3('f'), v.v3('t')
    lf, lt = length(f), length(t)
    c = dot(f / lf, t / lt)
    o = q4(v, 'o', True)
    ok = lf.ne(0) & lt.ne(0)
    if near == 'apart':
        n = cross(f / lf, t / lt)
        n = n / length(n)
        s = sqrt((1 - c) / 2)
        return dict(pre=ok & (c < q('99998/100000')) & (c > -q('99998/100000')), claims=v.eqv('', o, V(n[0] * s, n[1] * s, n[2] * s, sqrt((1 + c) / 2)), 'o'))
    if near == 'same':
        return dict(pre=ok & (c > q('999991/1000000')), claims=v.eqv('', o, V(0, 0, 0, 1), 'o'))
    return dict(pre=ok & (c < -q('999991/1000000')), claims=[
        Eq('half turn', o[3], q(0)), Eq('unit', len2(Vn(o[:3])), q(1)), Eq('perpendicular', dot(Vn(o[:3]), f), q(0))])


for near in ('apart', 'same', 'opposite'):
    for fm, b in (('set', 'o.set(f, t);'), ('from', 'o = Q::from(f, t);')):
        u.check('between_%s_%s' % (near, fm), 'f:cV3 t:cV3 o:Q', b, lambda v, near=near: between(v, near))


# orthonormalise: a rotation stays what it is; anything else becomes the rotation of the quaternion read from it
for t in ('M3', 'M4'):
    u.check('orthonormalise_keeps_' + t, 'a:cQ n:M3 o:%s' % t, 'Q k = a; k.normalize(); n.set(k); %s m; m.set(k); o = m.orthonormalise();' % t,
            lambda v, t=t: [Eq('entry %d,%d' % (i, j), (v.m3('o', out=True) if t == 'M3' else v.m4('o', out=True))[i][j], v.m3('n', out=True)[i][j]) for i in range(3) for j in range(3)])

    def ortho(v, t=t):
        m = (v.m3('o', out=True) if t == 'M3' else v.m4('o', out=True))
        c = [Vn(m[i][j] for i in range(3)) for j in range(3)]
        k = q4(v, 'k', True)
        r = [Eq('columns %d and %d' % (i, j), dot(c[i], c[j]), q(1 if i == j else 0)) for i in range(3) for j in range(i, 3)] + [Eq('right-handed %d' % i, x, y) for i, (x, y) in enumerate(zip(cross(c[0], c[1]), c[2]))]
        if t == 'M4':
            r += [Eq('affine %d,%d' % (i, j), m[i][j], q(1 if i == j else 0)) for i in range(4) for j in range(4) if i == 3 or j == 3]
        return dict(pre=len2(k).ne(0), claims=r)
    u.check('orthonormalise_frame_' + t, 'm:%s k:Q o:%s' % (t, t), 'k.set(m); o = m; o.orthonormalise();', ortho)


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
