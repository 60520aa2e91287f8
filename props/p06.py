from matlib import *

META = {
    'title': 'Matrix products and in-place transformations compose as they say',
    'statement': 'The matrix product (operator, compound assignment, static multiply) is the algebraic product for all four matrix types, including through the identity fast paths. rotate/transform/translate apply after the current transformation, rotatePre/transformPre/translatePre/operator*= before it; scaling multiplies each axis column by its coefficient (and, for scale on affine matrices, the translation component-wise). Scalar multiplication, division and negation act on every entry. Every in-place form and its value-returning twin (rotated, transformed, translated, scaled and their Pre forms) yield the same matrix, and equality compares every entry. The constants One and Zero are the identity and the zero matrix.',
    'forall': 'every matrix whose identity flag is truthful (any flags otherwise), every rotation argument not within the identity tolerance of the identity (those are treated as the identity), every scalar and vector argument, float and double, distinct operands',
    'why': 'unit tests multiply a few constant matrices; swapped multiplication order, a transposed entry or a wrong fast path on one overload only appears on other operands or flag states',
    'files': ['mat2.h', 'mat3.h', 'mat34.h', 'mat4.h', 'impl/mat2.h', 'impl/mat3.h', 'impl/mat34.h', 'impl/mat4.h'],
    'mech': [('multiply/operator*/rotate/rotatePre', 'impl/mat3.h'), ('transform/transformPre/translate/scale', 'impl/mat34.h'), ('transform/transformPre/translate/scale', 'impl/mat4.h'), ('product', 'impl/mat2.h')],
}
u = Unit('P06', META['title'])
setup(u)


def chk(name, t, params, body, want, out='o', pres=(), ret='void'):
    def spec(v):
        pre = truthful_id(v, *pres) if pres else T
        x = want(v)
        cl = eq34(v, out, x) if t == 'M34' else eqm(v, t, out, x)
        return {'pre': pre, 'claims': cl}
    u.check(name, params, body, spec, ret)


def full(v, t, o):
    return affine(v, o) if t == 'M34' else mat(v, t, o)


def rot(v, t, kind):
    """3x3 rotation described by the arguments"""
    if kind == 'Q':
        return qmat(v.v4('q'))
    if kind == 'axis':
        return rodrigues_degenerate(v.v3('ax'), v.arg('g'))
    return ROT[kind](v.arg('g'))


def rodrigues_degenerate(a, g):
    return rodrigues(unit(a), g)


RK = {'Q': ('q:cQ', 'q'), 'axis': ('ax:cV3 g:R', 'ax, g')}
for c in 'XYZ':
    RK[c] = ('g:R', C + c + ', g')

for t in ('M2', 'M3', 'M34', 'M4'):
    P2 = ((t, 'm'), (t, 'n'))
    P1 = ((t, 'm'),)
    for nm, k in (('One', 1), ('Zero', 0)):
        n_ = 2 if t == 'M2' else 3 if t == 'M3' else 4
        chk(t + '_' + nm, t, 'o:' + t, 'o = %s::%s;' % (t, nm), lambda v, k=k, n_=n_, t=t: Mn(Vn(q(1) if i == j and (k or (t == 'M34' and i == 3)) else q(0) for j in range(n_)) for i in range(n_)))
    prod = lambda v, t=t: full(v, t, 'm') * full(v, t, 'n')
    rprod = lambda v, t=t: full(v, t, 'n') * full(v, t, 'm')
    chk(t + '_mul', t, 'm:c%s n:c%s o:%s' % (t, t, t), 'o = m * n;', prod, pres=P2)
    chk(t + '_multiply', t, 'm:c%s n:c%s o:%s' % (t, t, t), '%s::multiply(o, m, n);' % t, prod, pres=P2)
    if t != 'M4':
        chk(t + '_mul_assign', t, 'm:%s n:c%s' % (t, t), 'm *= n;', prod, out='m', pres=P2)
    if t == 'M3':
        chk('M3_rotate_M3', t, 'm:M3 n:cM3', 'm.rotate(n);', rprod, out='m', pres=P2)
        chk('M3_rotatePre_M3', t, 'm:M3 n:cM3', 'm.rotatePre(n);', prod, out='m', pres=P2)
        chk('M3_rotated_M3', t, 'm:cM3 n:cM3 o:M3', 'o = m.rotated(n);', rprod, pres=P2)
        chk('M3_rotatedPre_M3', t, 'm:cM3 n:cM3 o:M3', 'o = m.rotatedPre(n);', prod, pres=P2)
    if t in ('M34', 'M4'):
        chk(t + '_transform', t, 'm:%s n:c%s' % (t, t), 'm.transform(n);', rprod, out='m', pres=P2)
        chk(t + '_transformPre', t, 'm:%s n:c%s' % (t, t), 'm.transformPre(n);', prod, out='m', pres=P2)
    if t == 'M4':
        chk(t + '_transformed', t, 'm:c%s n:c%s o:%s' % (t, t, t), 'o = m.transformed(n);', rprod, pres=P2)
        chk(t + '_transformedPre', t, 'm:c%s n:c%s o:%s' % (t, t, t), 'o = m.transformedPre(n);', prod, pres=P2)
    if t == 'M34':
        PM = (('M34', 'm'), ('M3', 'n'))
        p3 = lambda v: affine(v, 'm') * hom3(v.m3('n'))
        r3 = lambda v: hom3(v.m3('n')) * affine(v, 'm')
        chk('M34_mul_M3', t, 'm:cM34 n:cM3 o:M34', 'o = m * n;', p3, pres=PM)
        chk('M34_mul_assign_M3', t, 'm:M34 n:cM3', 'm *= n;', p3, out='m', pres=PM)
        chk('M34_transform_M3', t, 'm:M34 n:cM3', 'm.transform(n);', r3, out='m', pres=PM)
        chk('M34_transformPre_M3', t, 'm:M34 n:cM3', 'm.transformPre(n);', p3, out='m', pres=PM)

    # rotations
    n = {'M2': 2, 'M3': 3, 'M34': 4, 'M4': 4}[t]
    if t == 'M2':
        A = lambda v: rot2(v.arg('g')) * v.m2('m')
        B = lambda v: v.m2('m') * rot2(v.arg('g'))
        chk('M2_rotate', t, 'm:M2 g:R', 'm.rotate(g);', A, out='m')
        chk('M2_rotatePre', t, 'm:M2 g:R', 'm.rotatePre(g);', B, out='m')
        chk('M2_rotated', t, 'm:cM2 g:R o:M2', 'o = m.rotated(g);', A)
    else:
        for k, (par, call) in RK.items():
            lift = (lambda r: r) if t == 'M3' else hom3
            A = lambda v, t=t, k=k, lift=lift: lift(rot(v, t, k)) * full(v, t, 'm')
            B = lambda v, t=t, k=k, lift=lift: full(v, t, 'm') * lift(rot(v, t, k))
            P = (lambda v, t=t: truthful_id(v, (t, 'm')))
            # a rotation argument within the identity tolerance may be treated as the identity: exclude that sliver
            def spec(v, W=None, t=t, k=k, out='m'):
                r = rot(v, t, k)
                d = r - eye(3)
                err = None
                for row in d:
                    for e in row:
                        err = e * e if err is None else err + e * e
                nearid = err <= q(TOL)
                pre = truthful_id(v, (t, 'm')) & ~nearid
                x = W(v)
                return {'pre': pre, 'claims': eq34(v, out, x) if t == 'M34' else eqm(v, t, out, x)}
            TOL = None
            from fractions import Fraction
            TOL = Fraction(1, 1000)
            u.check('%s_rotate_%s' % (t, k), 'm:%s %s' % (t, par), 'm.rotate(%s);' % call, lambda v, A=A, spec=spec: spec(v, A), budget=60000)
            u.check('%s_rotatePre_%s' % (t, k), 'm:%s %s' % (t, par), 'm.rotatePre(%s);' % call, lambda v, B=B, spec=spec: spec(v, B), budget=60000)
            if t != 'M34':
                u.check('%s_rotated_%s' % (t, k), 'm:c%s o:%s %s' % (t, t, par), 'o = m.rotated(%s);' % call, lambda v, A=A, spec=spec: spec(v, A, out='o'), budget=60000)
                u.check('%s_rotatedPre_%s' % (t, k), 'm:c%s o:%s %s' % (t, t, par), 'o = m.rotatedPre(%s);' % call, lambda v, B=B, spec=spec: spec(v, B, out='o'), budget=60000)

    # translations and scalings of affine matrices
    if t in ('M34', 'M4'):
        TR = lambda v: hom3(eye(3), v.v3('d'))
        if t == 'M34':
            A = lambda v: TR(v) * affine(v, 'm')
            B = lambda v: affine(v, 'm') * TR(v)
            pre = None
        else:
            # translate adds to the translation column only (equal to the product for affine matrices)
            A = lambda v: Mn(Vn(v.m4('m')[i][j] + (v.v3('d')[i] if j == 3 and i < 3 else 0) for j in range(4)) for i in range(4))
            B = lambda v: Mn(Vn(v.m4('m')[i][j] + (dot(v.m4('m')[i][:3], v.v3('d')) if j == 3 and i < 3 else 0) for j in range(4)) for i in range(4))
        chk(t + '_translate', t, 'm:%s d:cV3' % t, 'm.translate(d);', A, out='m')
        chk(t + '_translatePre', t, 'm:%s d:cV3' % t, 'm.translatePre(d);', B, out='m')
        if t == 'M4':
            chk(t + '_translated', t, 'm:c%s d:cV3 o:%s' % (t, t), 'o = m.translated(d);', A)
            chk(t + '_translatedPre', t, 'm:c%s d:cV3 o:%s' % (t, t), 'o = m.translatedPre(d);', B)

        def scl(v, t=t, tr=True):
            m = full(v, t, 'm')
            k = v.v3('d')
            return Mn(Vn(m[i][j] * k[j] if j < 3 else (m[i][3] * k[i] if tr and i < 3 else m[i][3]) for j in range(4)) for i in range(4))
        chk(t + '_scale', t, 'm:%s d:cV3' % t, 'm.scale(d);', scl, out='m')
        chk(t + '_scalePre', t, 'm:%s d:cV3' % t, 'm.scalePre(d);', lambda v, scl=scl: scl(v, tr=False), out='m')
        if t == 'M4':
            chk(t + '_scaled', t, 'm:c%s d:cV3 o:%s' % (t, t), 'o = m.scaled(d);', scl)
            chk(t + '_scaledPre', t, 'm:c%s d:cV3 o:%s' % (t, t), 'o = m.scaledPre(d);', lambda v, scl=scl: scl(v, tr=False))
    else:
        vt = 'V' + t[1]
        S = lambda v, t=t, vt=vt: mat(v, t, 'm') * diag(v.v2('d') if t == 'M2' else v.v3('d'))
        chk(t + '_scale', t, 'm:%s d:c%s' % (t, vt), 'm.scale(d);', S, out='m')
        chk(t + '_scaled', t, 'm:c%s d:c%s o:%s' % (t, vt, t), 'o = m.scaled(d);', S)

    # scalar operations and negation
    if t != 'M34':
        each = lambda f, t=t: (lambda v: Mn(Vn(f(v, e) for e in r) for r in mat(v, t, 'm')))
        chk(t + '_mul_k', t, 'm:c%s k:R o:%s' % (t, t), 'o = m * k;', each(lambda v, e: e * v.arg('k')))
        chk(t + '_mul_assign_k', t, 'm:%s k:R' % t, 'm *= k;', each(lambda v, e: e * v.arg('k')), out='m')

        def dspec(v, t=t, o='o'):
            return {'pre': v.arg('k').ne(0), 'claims': eqm(v, t, o, Mn(Vn(e / v.arg('k') for e in r) for r in mat(v, t, 'm')))}
        u.check(t + '_div_k', 'm:c%s k:R o:%s' % (t, t), 'o = m / k;', dspec)
        u.check(t + '_div_assign_k', 'm:%s k:R' % t, 'm /= k;', lambda v, dspec=dspec: dspec(v, o='m'))
        chk(t + '_neg', t, 'm:c%s o:%s' % (t, t), 'o = -m;', each(lambda v, e: -e))
    else:
        chk(t + '_neg', t, 'm:c%s o:%s' % (t, t), 'o = -m;', lambda v: Mn([-r for r in affine(v, 'm')[:3]] + [V(0, 0, 0, 1)]))
    ents = lambda v, o, t=t: [e for r in full(v, t, o) for e in r]
    u.check(t + '_eq', 'm:c%s n:c%s' % (t, t), 'return m == n;', lambda v, ents=ents: [Eq('==', v.ret, all_(*[a.eq(b) for a, b in zip(ents(v, 'm'), ents(v, 'n'))]))], ret='bool')
    u.check(t + '_ne', 'm:c%s n:c%s' % (t, t), 'return m != n;', lambda v, ents=ents: [Eq('!=', v.ret, ~all_(*[a.eq(b) for a, b in zip(ents(v, 'm'), ents(v, 'n'))]))], ret='bool')


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
