from matlib import *

META = {
    'title': 'Rotation constructors build the stated right-handed orthonormal frame',
    'statement': 'Building a matrix from an angle, a named axis and an angle, any axis vector and an angle, a quaternion, or an exact and an approximate axis direction gives exactly the rotation so described: the Rodrigues rotation about the normalised axis, the named-axis rotation, or the frame whose exact column is the unit vector along the exact direction and whose approximate column is the unit vector nearest to the approximate direction; degenerate directions give the identity. Every constructed rotation is orthonormal, right-handed, flagged so, has the given translation (zero by default) and agrees across Mat2, Mat3, Mat34 and Mat4 and across set and from; Mat2::angle recovers the angle.',
    'forall': 'every nonzero axis, every direction, angle and translation, all six axis pairs, float and double',
    'why': 'tests build a handful of right-angle rotations; correctness must hold for every direction, including degenerate ones and non-unit axes',
    'files': ['mat2.h', 'mat3.h', 'mat34.h', 'mat4.h', 'impl/mat2.h', 'impl/mat3.h', 'impl/mat34.h', 'impl/mat4.h'],
    'mech': [('set(Coord, exact, Coord, approx)', 'impl/mat3.h'), ('set(axis, angle)', 'impl/mat4.h'), ('set(q, t)', 'impl/mat34.h')],
}
u = Unit('P09', META['title'])
setup(u)


def rot_claims(v, t, o, want, tr=None, flags=True):
    """exit matrix is the affine map with linear part want and translation tr"""
    tr = tr or V(0, 0, 0)
    if t == 'M3':
        c = v.eqm('', v.m3(o, out=True), want, o)
    elif t == 'M34':
        c = v.eqm('', v.m3(o, 'rs', out=True), want, o, 'rs') + v.eqv('t', v.v3(o, 't', out=True), tr, o, 't')
    elif t == 'M4':
        c = v.eqm('', v.m4(o, out=True), hom3(want, tr), o)
    else:
        c = v.eqm('', v.m2(o, out=True), want, o)
    if flags:
        c.append(Eq('flagged orthonormal', v.pred('isOrthonormal_' + t, o, post=True), T))
        c.append(Eq('flagged initialised', v.pred('isInitialized_' + t, o, post=True), T))
        if t == 'M4':
            c.append(Eq('flagged affine', v.pred('isTrs_M4', o, post=True), T))
    return c


def pair(name, t, params, setb, fromb, spec):
    """the set form and the from form of one constructor"""
    u.check('%s_set_%s' % (t, name), 'm:%s %s' % (t, params), 'm.%s;' % setb, spec)
    u.check('%s_from_%s' % (t, name), 'm:%s %s' % (t, params), 'm = %s::%s;' % (t, fromb), spec)


pair('angle', 'M2', 'g:R', 'set(g)', 'from(g)', lambda v: rot_claims(v, 'M2', 'm', rot2(v.arg('g'))))
u.check('M2_angle', 'm:cM2', 'return m.angle();', lambda v: [Eq('angle', v.ret, fn('atan2', v.m2('m')[1][0], v.m2('m')[0][0]))], ret='R')


def m2ortho(v):
    m = v.m2('m')
    x = m.cols()[0]
    l = length(x)
    z = l.eq(0)
    c, s = ite(z, q(1), x[0] / l), ite(z, q(0), x[1] / l)
    return rot_claims(v, 'M2', 'm', cols(V(c, s), V(-s, c)))


u.check('M2_orthonormalise', 'm:M2', 'm.orthonormalise();', m2ortho)


def nonnull(v):
    return length(v.v3('a')).ne(0)


def axis_rot(v):
    a, g = v.v3('a'), v.arg('g')
    return rodrigues(a / length(a), g)


for t in ('M3', 'M34', 'M4'):
    trp, tra, trv = ('', '', None)
    for c in 'XYZ':
        pair('coord%s' % c, t, 'g:R', 'set(%s%s, g)' % (C, c), 'from(%s%s, g)' % (C, c), lambda v, t=t, c=c: rot_claims(v, t, 'm', ROT[c](v.arg('g'))))
    pair('axis', t, 'a:cV3 g:R', 'set(a, g)', 'from(a, g)', lambda v, t=t: dict(claims=rot_claims(v, t, 'm', axis_rot(v)), pre=nonnull(v)))
    unitq = None
    pair('quat', t, 'a:cQ', 'set(a)', 'from(a)', lambda v, t=t: rot_claims(v, t, 'm', qmat(v.v4('a')), flags=False))
    if t == 'M34':
        for c in 'XYZ':
            pair('coord%s_t' % c, t, 'g:R d:cV3', 'set(%s%s, g, d)' % (C, c), 'from(%s%s, g, d)' % (C, c), lambda v, t=t, c=c: rot_claims(v, t, 'm', ROT[c](v.arg('g')), v.v3('d')))
        pair('axis_t', t, 'a:cV3 g:R d:cV3', 'set(a, g, d)', 'from(a, g, d)', lambda v, t=t: dict(claims=rot_claims(v, t, 'm', axis_rot(v), v.v3('d')), pre=nonnull(v)))
    if t in ('M34', 'M4'):
        pair('quat_t', t, 'a:cQ d:cV3', 'set(a, d)', 'from(a, d)', lambda v, t=t: rot_claims(v, t, 'm', qmat(v.v4('a')), v.v3('d'), flags=False))
    # a normalised quaternion gives an orthonormal matrix that says so
    u.check(t + '_unit_quat', 'a:cQ m:%s' % t, 'Q n(a); n.normalize(); m.set(n);', lambda v, t=t: [
        Eq('flagged orthonormal', v.pred('isOrthonormal_' + t, 'm', post=True), T)] + ([Eq('flagged affine', v.pred('isTrs_M4', 'm', post=True), T)] if t == 'M4' else []) + [
        Eq('right-handed', det(Mn(Vn(r[:3]) for r in mat(v, t, 'm', True)[:3]) if t == 'M4' else mat(v, t, 'm', True)), q(1))])
    for e in 'XYZ':
        for a in 'XYZ':
            def sp(v, t=t, e=e, a=a):
                ex, ap = v.v3('e'), v.v3('a')
                if e == a:
                    return rot_claims(v, t, 'm', eye(3))
                uu = ex / length(ex)
                n = cross(ap, uu)
                k = cross(ap, ex)
                bad = length(ex).eq(0) | (k[0].eq(0) & k[1].eq(0) & k[2].eq(0))
                v_ = n / length(n)
                w_ = cross(uu, v_)
                ce, ca = 'XYZ'.index(e), 'XYZ'.index(a)
                cc = [None] * 3
                cc[ce], cc[ca] = uu, w_
                third = 3 - ce - ca
                # right-handed: third column completes the frame
                sgn = 1 if (ce, ca) in ((0, 1), (1, 2), (2, 0)) else -1
                cc[third] = v_ * (-sgn)
                return rot_claims(v, t, 'm', mite(bad, eye(3), cols(*cc)))
            pair('exact%s_approx%s' % (e, a), t, 'e:cV3 a:cV3', 'set(%s%s, e, %s%s, a)' % (C, e, C, a), 'from(%s%s, e, %s%s, a)' % (C, e, C, a), sp)
    # agreement of the named-axis and vector forms
    for c, ax in (('X', 'OneX'), ('Y', 'OneY'), ('Z', 'OneZ')):
        u.check('%s_axis_is_coord_%s' % (t, c), 'm:%s g:R' % t, 'm.set(V3::%s, g);' % ax, lambda v, t=t, c=c: rot_claims(v, t, 'm', ROT[c](v.arg('g'))))
u.check('M34_from_parts', 'm:M34 r:cM3 d:cV3', 'm = M34(r, d);', lambda v: rot_claims(v, 'M34', 'm', v.m3('r'), v.v3('d'), flags=False))
u.check('M34_set_parts', 'm:M34 r:cM3 d:cV3', 'm.set(r, d);', lambda v: rot_claims(v, 'M34', 'm', v.m3('r'), v.v3('d'), flags=False))
u.check('M34_set_rs', 'm:M34 r:cM3', 'm.set(r);', lambda v: rot_claims(v, 'M34', 'm', v.m3('r'), flags=False))
for t in ('M34', 'M4'):
    pair('cols_t', t, 'x:cV3 y:cV3 z:cV3 d:cV3', 'set(x, y, z, d)', 'from(x, y, z, d)', lambda v, t=t: rot_claims(v, t, 'm', cols(v.v3('x'), v.v3('y'), v.v3('z')), v.v3('d'), flags=False))
    u.check(t + '_set_cols', 'm:%s x:cV3 y:cV3 z:cV3' % t, 'm.set(x, y, z);', lambda v, t=t: rot_claims(v, t, 'm', cols(v.v3('x'), v.v3('y'), v.v3('z')), flags=False))


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
