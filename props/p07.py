from matlib import *

META = {
    'title': 'Determinant, trace, adjoint, cofactors, transpose and inverse',
    'statement': 'determinant, trace, cofactors, adjoint and transpose are the algebraic functions of those names; transposing twice is the identity; adjoint is the transposed cofactor matrix. inversed/invert return the matrix M^-1 with M*M^-1 = I whenever the matrix is invertible and is not claimed an orthonormal affine transformation, the zero matrix when the determinant is zero, and the rigid inverse (transpose, rotated-back translation) when the matrix is claimed (and is) an orthonormal affine transformation; invert and inversed agree.',
    'forall': 'every matrix whose orthonormality, identity and affine (TRS) flags are truthful, float and double',
    'why': 'tests invert a few constant matrices; a sign or index error in one cofactor or in one fast path shows only for other matrices or other flag states',
    'files': ['mat2.h', 'mat3.h', 'mat34.h', 'mat4.h', 'impl/mat2.h', 'impl/mat3.h', 'impl/mat34.h', 'impl/mat4.h'],
    'mech': [('determinant/adjoint/cofactors/inversed', 'impl/mat2.h'), ('determinant/adjoint/cofactors/inversed/invert', 'impl/mat3.h'), ('invert', 'impl/mat34.h'), ('determinant/inversed/invert', 'impl/mat4.h')],
}
u = Unit('P07', META['title'])
setup(u)

for t in ('M2', 'M3', 'M4'):
    g = lambda v, o='m', out=False, t=t: mat(v, t, o, out)
    n = int(t[1])
    u.check(t + '_determinant', 'm:c' + t, 'return m.determinant();', lambda v, g=g: [Eq('determinant', v.ret, det(g(v)))], ret='R')
    u.check(t + '_trace', 'm:c' + t, 'return m.trace();', lambda v, g=g, n=n: [Eq('trace', v.ret, sum((g(v)[i][i] for i in range(1, n)), g(v)[0][0]))], ret='R')
    u.check(t + '_transpose', 'm:' + t, 'm.transpose();', lambda v, g=g, t=t: eqm(v, t, 'm', g(v).t()))
    u.check(t + '_transposed', 'm:c%s o:%s' % (t, t), 'o = m.transposed();', lambda v, g=g, t=t: eqm(v, t, 'o', g(v).t()))
    u.check(t + '_transposed_twice', 'm:c%s o:%s' % (t, t), 'o = m.transposed().transposed();', lambda v, g=g, t=t: eqm(v, t, 'o', g(v)))
    if t != 'M4':
        u.check(t + '_cofactors', 'm:c%s o:%s' % (t, t), 'o = m.cofactors();', lambda v, g=g, t=t: eqm(v, t, 'o', cof(g(v))))
        u.check(t + '_adjoint', 'm:c%s o:%s' % (t, t), 'o = m.adjoint();', lambda v, g=g, t=t: eqm(v, t, 'o', adj(g(v))))

    def inv(v, t=t, g=g, o='o', fast=False):
        m = g(v)
        d = det(m)
        zero = Mn(Vn(q(0) for _ in r) for r in m)
        gen = mite(d.eq(0), zero, Mn(Vn(e / d for e in r) for r in adj(m)))
        if not fast:
            return eqm(v, t, o, gen)
        orth = v.pred('isOrthonormal_' + t, 'm')
        if t == 'M4':
            rt = Mn(Vn(m[j][i] for j in range(3)) for i in range(3))
            tr = Vn(m[i][3] for i in range(3))
            rig = hom3(rt, -(rt * tr))
            w4 = V(*m[3])
            trs = v.pred('isTrs_M4', 'm')
            pre = ~trs | (w4[0].eq(0) & w4[1].eq(0) & w4[2].eq(0) & w4[3].eq(1))
            orth = orth & trs
        else:
            rig = m.t()
            pre = T
        return {'pre': pre, 'claims': eqm(v, t, o, mite(orth, rig, gen))}
    u.check(t + '_inversed', 'm:c%s o:%s' % (t, t), 'o = m.inversed();', lambda v, inv=inv, t=t: inv(v, fast=t == 'M4'))
    if t != 'M2':
        u.check(t + '_invert', 'm:' + t, 'm.invert();', lambda v, inv=inv: inv(v, o='m', fast=True))


def inv34(v):
    m = v.m3('m', 'rs')
    tr = v.v3('m', 't')
    d = det(m)
    orth = v.pred('isOrthonormal_M34', 'm')
    rig = hom3(m.t(), -(m.t() * tr))
    ai = Mn(Vn(e / d for e in r) for r in adj(m))
    gen = hom3(ai, -(ai * tr))
    zero = hom3(Mn(Vn(q(0) for _ in r) for r in m))
    ide = v.pred('rsIdentity_M34', 'm')
    # a claimed identity is also claimed orthonormal (P08), and is the identity
    pre = (~ide | (ident(m) & orth))
    return {'pre': pre, 'claims': eq34(v, 'm', mite(orth, rig, mite(d.eq(0), zero, gen)))}


u.check('M34_invert', 'm:M34', 'm.invert();', inv34)
u.check('M34_transpose', 'm:M34', 'm.transpose();', lambda v: eq34(v, 'm', hom3(v.m3('m', 'rs').t(), v.v3('m', 't'))))

# M * M^-1 = I , computed by the library's own product
for t in ('M2', 'M3', 'M4'):
    def right(v, t=t):
        n = int(t[1])
        m = mat(v, t, 'm')
        pre = det(m).ne(0) & ~v.pred('isIdentity_' + t, 'm')
        if t != 'M2':
            pre = pre & ~v.pred('isOrthonormal_' + t, 'm')
        return {'pre': pre, 'claims': [c for i in range(n) for c in v.eqv('row %d' % i, v.v2('o%d' % i, out=True) if n == 2 else v.v3('o%d' % i, out=True) if n == 3 else v.v4('o%d' % i, out=True), mat(v, t, 'm') .t()[i] * 0 + Vn(v.cell('o%d' % i, 'xyzw'[j], 'in') for j in range(n)), 'o%d' % i)]}
    n = int(t[1])
    if n < 4:
        u.check(t + '_inverse_cancels', 'm:c%s ' % t + ' '.join('o%d:V%d' % (i, n) for i in range(n)),
                '%s w = m.inversed(); ' % t + ' '.join('o%d = m * (w * o%d);' % (i, i) for i in range(n)), right)


def rigid(v):
    """orthonormal truthful: inverse applied after the matrix is the identity on points"""
    m = v.m4('m')
    r3 = Mn(Vn(m[i][:3]) for i in range(3))
    return m, r3


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
