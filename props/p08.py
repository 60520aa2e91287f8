from matlib import *

META = {
    'title': 'Cached matrix flags never over-claim',
    'statement': 'A matrix never reports isNormal, isOrthogonal, isOrthonormal, isIdentity or isTrs unless it is so: after every construction, assignment or transformation each claimed flag either is the outcome of measuring the resulting entries against the default tolerance, or is carried over by a rule that preserves it (copying, the identity fast paths, products of matrices that are both orthonormal, transposition and inversion of orthonormal matrices, column scaling of orthogonal ones, translation of affine ones). The error measures are the sums of squares they are documented to be, setters from raw data report exactly what the measurement says, and a default-constructed matrix is the only uninitialised one.',
    'forall': 'every matrix whose flags are truthful on entry, every argument, float and double',
    'why': 'flags drive fast paths in products and inverses, so one stale flag makes a later inverse or product silently wrong; tests check flags for a few constants per operation',
    'files': ['mat2.h', 'mat3.h', 'mat34.h', 'mat4.h', 'impl/mat2.h', 'impl/mat3.h', 'impl/mat34.h', 'impl/mat4.h'],
    'mech': [('flags &= m.flags, optimize()', 'impl/mat2.h'), ('flags updates in rotate/rotatePre/transpose', 'impl/mat3.h'), ('flags updates in translate/scale/transpose/multiply', 'impl/mat4.h')],
}
u = Unit('P08', META['title'])
setup(u)
for t in ('M2', 'M3', 'M4'):
    u.fn('tol_' + t, 'm:c' + t, 'return 0.001;', 'R')


def tol(v):
    return None


def measured(v, t, o):
    """what measuring the exit entries of o says: (normal, orthogonal, identity)"""
    c = mat(v, t, o, True)
    cs = c.cols()
    if t == 'M4':
        row = V(*c[3])
        trs = row[0].eq(0) & row[1].eq(0) & row[2].eq(0) & row[3].eq(1)
    n = len(cs)
    E = lambda *xs: sum(xs[1:], xs[0])
    sq = lambda x: x * x

    def errs(cs):
        k = len(cs)
        return (E(*[sq(len2(x) - 1) for x in cs]), E(*[sq(dot(cs[i], cs[j])) for i in range(k) for j in range(i + 1, k)]))
    if t == 'M4':
        c3 = [Vn(x[:3]) for x in cs[:3]]
        a, b = errs(c3), errs(cs)
        ne, oe = ite(trs, a[0], b[0]), ite(trs, a[1], b[1])
    else:
        ne, oe = errs(cs)
    ie = E(*[sq(c[i][j] - (1 if i == j else 0)) for i in range(n) for j in range(n)])
    from fractions import Fraction
    tl = q(Fraction(1, 1000))
    nn, oo = ne <= tl, oe <= tl
    r = {'Normal': nn, 'Orthogonal': oo, 'Identity': nn & oo & (ie <= tl)}
    if t == 'M4':
        r['trs'] = trs
    return r


FT = ('Normal', 'Orthogonal', 'Identity')


def flags(v, t, o, post=False):
    return {k: v.pred('is%s_%s' % (k, t), o, post=post) for k in FT}


def sound(name, t, params, body, legit=None, out='m', exact=False, ins=(), budget=40000, pre=None, cut=False):
    """every flag claimed on exit is measured or legitimately carried over"""
    bt = t
    rt = 'M3' if t == 'M34' else t

    def spec(v):
        m = measured(v, t, out)
        post = flags(v, t, out, True)
        if t == 'M34':
            post['Identity'] = v.pred('rsIdentity_M34', out, post=True)
        L = legit(v) if legit else {}
        cl = []
        for k in FT:
            ok = m[k]
            if k in L:
                ok = ok | L[k]
            if exact:
                cl.append(Eq('is%s says what the entries say' % k, post[k], m[k]))
            else:
                cl.append(Holds('is%s is not over-claimed' % k, ~post[k] | ok))
        if t == 'M4':
            p = v.pred('isTrs_M4', out, post=True)
            ok = m['trs'] | L.get('trs', F)
            cl.append(Eq('isTrs says what the entries say', p, m['trs']) if exact else Holds('isTrs is not over-claimed', ~p | ok))
        cl.append(Eq('initialised', v.pred('isInitialized_' + t, out, post=True), T if not ins else all_(*[v.pred('isInitialized_' + tt, o) for tt, o in ins]) | v.pred('isInitialized_' + t, out, post=True)))
        pr = T
        for tt, o in ins:
            pr = pr & truth(v, tt, o)
        if pre is not None:
            pr = pr & pre(v)
        r = {'pre': pr, 'claims': cl}
        if cut:
            r['cut'] = [e for row in mat(v, t, out, True) for e in row]
        return r
    u.check(name, params, body, spec, budget=budget)


def truth(v, t, o):
    """entry flags are truthful (identity and affine exactly)"""
    r = truthful_id(v, (t, o))
    f = flags(v, t, o)
    if t == 'M34':
        f['Identity'] = v.pred('rsIdentity_M34', o)
    r = r & (~f['Identity'] | (f['Normal'] & f['Orthogonal']))
    if t == 'M4':
        m = v.m4(o)
        trs = v.pred('isTrs_M4', o)
        r = r & (~trs | (m[3][0].eq(0) & m[3][1].eq(0) & m[3][2].eq(0) & m[3][3].eq(1)))
        r = r & (~f['Identity'] | trs)
    return r


def same(v, t, *os):
    """flags of an operand carried over unchanged"""
    r = {}
    for k in FT:
        r[k] = any_(*[v.pred(('rsIdentity_M34' if (t == 'M34' and k == 'Identity') else 'is%s_%s' % (k, t)), o) for o in os])
    if t == 'M4':
        r['trs'] = any_(*[v.pred('isTrs_M4', o) for o in os])
    return r


def ortho(v, t, o):
    x = v.pred('isOrthonormal_' + t, o)
    if t == 'M4':
        x = x & v.pred('isTrs_M4', o)
    return x


def idf(v, t, o):
    return v.pred('rsIdentity_M34' if t == 'M34' else 'isIdentity_' + t, o)


def legit_product(t, a='m', b='n'):
    def f(v):
        both = ortho(v, t, a) & ortho(v, t, b)
        ia, ib = idf(v, t, a), idf(v, t, b)
        sa, sb = same(v, t, a), same(v, t, b)
        r = {}
        for k in ('Normal', 'Orthogonal'):
            r[k] = both | (ia & sb[k]) | (ib & sa[k])
        r['Identity'] = (ia & sb['Identity']) | (ib & sa['Identity'])
        if t == 'M4':
            r['trs'] = sa['trs'] & sb['trs']
        return r
    return f


def legit_orth(t, o='m', keep_id=True):
    """kept when the operand is orthonormal (transposition, inversion)"""
    def f(v):
        both = v.pred('isOrthonormal_' + t, o)
        s = same(v, t, o)
        r = {'Normal': both, 'Orthogonal': both, 'Identity': s['Identity'] if keep_id else F}
        return r
    return f


REALS = {'M2': 2, 'M3': 3, 'M34': 3, 'M4': 4}
for t in ('M2', 'M3', 'M34', 'M4'):
    n = REALS[t]
    vt = 'V%d' % n
    names = 'xyzt'[:n]
    two = [(t, 'm'), (t, 'n')]
    one = [(t, 'm')]
    lp = legit_product(t)
    # construction and assignment from entries: exact
    ps = ' '.join('%s:cV%d' % (c, n) for c in names) + (' tt:cV3' if t == 'M34' else '')
    ar = ', '.join(names) + (', tt' if t == 'M34' else '')
    sound(t + '_ctor', t, 'm:%s %s' % (t, ps), 'm = %s(%s);' % (t, ar), exact=True)
    sound(t + '_set', t, 'm:%s %s' % (t, ps), 'm.set(%s);' % ar, exact=True)
    sound(t + '_from', t, 'm:%s %s' % (t, ps), 'm = %s::from(%s);' % (t, ar), exact=True)
    sound(t + '_optimize', t, 'm:%s' % t, 'm.optimize();', exact=True)
    sound(t + '_setIdentity', t, 'm:%s' % t, 'm.setIdentity();', exact=True)
    sound(t + '_ctor_k', t, 'm:%s k:R' % t, 'm = %s(k);' % t, exact=False)
    sound(t + '_copy', t, 'm:c%s o:%s' % (t, t), 'o.set(m);', lambda v, t=t: same(v, t, 'm'), out='o', ins=one)
    if t == 'M4':
        ps3 = 'x:cV3 y:cV3 z:cV3 tt:cV3'
        sound('M4_ctor_V3', t, 'm:M4 ' + ps3, 'm = M4(x, y, z, tt);', exact=True)
        sound('M4_set_V3', t, 'm:M4 ' + ps3, 'm.set(x, y, z, tt);', exact=True)
    if t != 'M34':
        def errs(v, t=t):
            # the error measures themselves
            cs = mat(v, t, 'm').cols()
            return None
        sq = lambda x: x * x
        S = lambda xs: sum(xs[1:], xs[0])
        if t != 'M4':
            u.check(t + '_normalError_is', 'm:c' + t, 'return m.normalError();', lambda v, t=t: [Eq('normalError', v.ret, S([sq(len2(c) - 1) for c in mat(v, t, 'm').cols()]))], ret='R')
            u.check(t + '_orthogonalError_is', 'm:c' + t, 'return m.orthogonalError();', lambda v, t=t: [Eq('orthogonalError', v.ret, S([sq(dot(a, b)) for i, a in enumerate(mat(v, t, 'm').cols()) for b in mat(v, t, 'm').cols()[:i]]))], ret='R')
        u.check(t + '_identityError_is', 'm:c' + t, 'return m.identityError();', lambda v, t=t: [Eq('identityError', v.ret, S([sq(e - (1 if i == j else 0)) for i, r in enumerate(mat(v, t, 'm')) for j, e in enumerate(r)]))], ret='R')
    u.check(t + '_default_uninitialised', 'o:%s' % t, 'static_assert(sizeof(%s) > 0, ""); %s d; return d.isInitialized();' % (t, t), lambda v: [Eq('isInitialized', v.ret, F)], ret='bool')
    # orthonormal is exactly both
    u.check(t + '_orthonormal_is_both', 'm:c%s' % t, 'return m.isOrthonormal() == (m.isNormal() && m.isOrthogonal());', lambda v: [Eq('isOrthonormal', v.ret, T)], ret='bool')

    # products
    sound(t + '_mul', t, 'm:c%s n:c%s o:%s' % (t, t, t), 'o = m * n;', lp, out='o', ins=two, cut=True)
    sound(t + '_multiply', t, 'm:c%s n:c%s o:%s' % (t, t, t), '%s::multiply(o, m, n);' % t, lp, out='o', ins=two, cut=True)
    if t != 'M4':
        sound(t + '_mul_assign', t, 'm:%s n:c%s' % (t, t), 'm *= n;', lp, ins=two, cut=True)
    if t == 'M3':
        for meth in ('rotate', 'rotatePre'):
            sound('M3_%s_M3' % meth, t, 'm:M3 n:cM3', 'm.%s(n);' % meth, lp, ins=two, cut=True)
            sound('M3_%sd_M3' % meth.replace('rotatePre', 'rotatedPre').replace('rotate', 'rotate').rstrip('d') if False else 'M3_%s_val_M3' % meth, t, 'm:cM3 n:cM3 o:M3', 'o = m.%s(n);' % {'rotate': 'rotated', 'rotatePre': 'rotatedPre'}[meth], lp, out='o', ins=two, cut=True)
    if t in ('M34', 'M4'):
        for meth in ('transform', 'transformPre'):
            sound('%s_%s' % (t, meth), t, 'm:%s n:c%s' % (t, t), 'm.%s(n);' % meth, lp, ins=two, cut=True)
            if t == 'M4':
                sound('%s_%s_val' % (t, meth), t, 'm:c%s n:c%s o:%s' % (t, t, t), 'o = m.%s(n);' % {'transform': 'transformed', 'transformPre': 'transformedPre'}[meth], lp, out='o', ins=two, cut=True)
        # translations: entries of the linear part unchanged
        def lt(v, t=t):
            s = same(v, t, 'm')
            if t == 'M4':
                trs = v.pred('isTrs_M4', 'm')
                d = v.v3('d')
                z = d[0].eq(0) & d[1].eq(0) & d[2].eq(0)
                return {'Normal': s['Normal'] & (trs | z), 'Orthogonal': s['Orthogonal'] & (trs | z), 'Identity': s['Identity'] & z, 'trs': trs}
            return s
        for meth in ('translate', 'translatePre'):
            sound('%s_%s' % (t, meth), t, 'm:%s d:cV3' % t, 'm.%s(d);' % meth, lt, ins=one)
            if t == 'M4':
                sound('M4_%s_val' % meth, t, 'm:cM4 d:cV3 o:M4', 'o = m.%s(d);' % {'translate': 'translated', 'translatePre': 'translatedPre'}[meth], lt, out='o', ins=one)

        def ls(v, t=t):
            s = same(v, t, 'm')
            d = v.v3('d')
            one_ = d[0].eq(1) & d[1].eq(1) & d[2].eq(1)
            r = {k: s[k] & one_ for k in FT}
            if t == 'M4':
                trs = v.pred('isTrs_M4', 'm')
                # scaling the axes keeps them orthogonal
                r['Orthogonal'] = s['Orthogonal'] & (one_ | trs)
                r['trs'] = trs
            else:
                r['Orthogonal'] = s['Orthogonal']
            return r
        for meth in ('scale', 'scalePre'):
            sound('%s_%s' % (t, meth), t, 'm:%s d:cV3' % t, 'm.%s(d);' % meth, ls, ins=one)
            if t == 'M4':
                sound('M4_%s_val' % meth, t, 'm:cM4 d:cV3 o:M4', 'o = m.%s(d);' % {'scale': 'scaled', 'scalePre': 'scaledPre'}[meth], ls, out='o', ins=one)
    else:
        sound(t + '_scale', t, 'm:%s d:c%s' % (t, vt), 'm.scale(d);', ins=one)
        sound(t + '_scaled', t, 'm:c%s d:c%s o:%s' % (t, vt, t), 'o = m.scaled(d);', out='o', ins=one)
    if t == 'M34':
        PM = [('M34', 'm'), ('M3', 'n')]

        def lpm(v):
            a, b = ortho(v, 'M34', 'm'), ortho(v, 'M3', 'n')
            ia, ib = idf(v, 'M34', 'm'), idf(v, 'M3', 'n')
            sa, sb = same(v, 'M34', 'm'), same(v, 'M3', 'n')
            r = {k: (a & b) | (ia & sb[k]) | (ib & sa[k]) for k in ('Normal', 'Orthogonal')}
            r['Identity'] = ia & ib
            return r
        sound('M34_mul_M3', t, 'm:cM34 n:cM3 o:M34', 'o = m * n;', lpm, out='o', ins=PM)
        sound('M34_mul_assign_M3', t, 'm:M34 n:cM3', 'm *= n;', lpm, ins=PM)
        sound('M34_transform_M3', t, 'm:M34 n:cM3', 'm.transform(n);', lpm, ins=PM)
        sound('M34_transformPre_M3', t, 'm:M34 n:cM3', 'm.transformPre(n);', lpm, ins=PM)
    # rotations by an angle about a named axis: the factor is orthonormal
    def lr(v, t=t):
        o = ortho(v, t, 'm')
        s = same(v, t, 'm')
        return {'Normal': o, 'Orthogonal': o, 'trs': s.get('trs', F)}
    if t == 'M2':
        for meth, val in (('rotate', 'rotated'), ('rotatePre', None)):
            sound('M2_' + meth, t, 'm:M2 g:R', 'm.%s(g);' % meth, lr, ins=one)
            if val:
                sound('M2_' + val, t, 'm:cM2 g:R o:M2', 'o = m.%s(g);' % val, lr, out='o', ins=one)
    else:
        for c in 'XYZ':
            for meth, val in (('rotate', 'rotated'), ('rotatePre', 'rotatedPre')):
                sound('%s_%s_%s' % (t, meth, c), t, 'm:%s g:R' % t, 'm.%s(%s%s, g);' % (meth, C, c), (lambda v, t=t, lr=lr: dict(lr(v), **near_id(v, t, c))), ins=one)
                if t != 'M34':
                    sound('%s_%s_%s' % (t, val, c), t, 'm:c%s g:R o:%s' % (t, t), 'o = m.%s(%s%s, g);' % (val, C, c), (lambda v, t=t, lr=lr: dict(lr(v), **near_id(v, t, c))), out='o', ins=one)
    # transposition / inversion
    sound(t + '_transpose', t, 'm:%s' % t, 'm.transpose();', legit_orth(t) if t != 'M4' else None, ins=one)
    if t != 'M34':
        sound(t + '_transposed', t, 'm:c%s o:%s' % (t, t), 'o = m.transposed();', legit_orth(t) if t != 'M4' else None, out='o', ins=one)
    if t in ('M2', 'M3', 'M4'):
        sound(t + '_inversed', t, 'm:c%s o:%s' % (t, t), 'o = m.inversed();', (lambda v, t=t: legit_inv(v, t)), out='o', ins=one, cut=True)
    if t != 'M2':
        sound(t + '_invert', t, 'm:%s' % t, 'm.invert();', (lambda v, t=t: legit_inv(v, t)), ins=one, cut=True)
    if t != 'M34':
        sound(t + '_mul_k', t, 'm:c%s k:R o:%s' % (t, t), 'o = m * k;', (lambda v, t=t: {k: s & v.arg('k').eq(1) for k, s in same(v, t, 'm').items()}), out='o', ins=one)
        sound(t + '_mul_assign_k', t, 'm:%s k:R' % t, 'm *= k;', (lambda v, t=t: {k: s & v.arg('k').eq(1) for k, s in same(v, t, 'm').items()}), ins=one)
        sound(t + '_div_assign_k', t, 'm:%s k:R' % t, 'm /= k;', (lambda v, t=t: {k: s & v.arg('k').eq(1) for k, s in same(v, t, 'm').items()}), ins=one, pre=lambda v: v.arg('k').ne(0))
        sound(t + '_div_k', t, 'm:c%s k:R o:%s' % (t, t), 'o = m / k;', (lambda v, t=t: {k: s & v.arg('k').eq(1) for k, s in same(v, t, 'm').items()}), out='o', ins=one, pre=lambda v: v.arg('k').ne(0))
    sound(t + '_neg', t, 'm:c%s o:%s' % (t, t), 'o = -m;', out='o', ins=one)
    if t in ('M2', 'M3'):
        sound(t + '_adjoint', t, 'm:c%s o:%s' % (t, t), 'o = m.adjoint();', out='o', ins=one)
        sound(t + '_cofactors', t, 'm:c%s o:%s' % (t, t), 'o = m.cofactors();', out='o', ins=one)


def near_id(v, t, c):
    """identity fast path: a rotation within tolerance of the identity leaves the operand, flags included"""
    if t == 'M3':
        return {}
    g = v.arg('g')
    from fractions import Fraction
    near = (4 - 4 * cos(g)) <= q(Fraction(1, 1000))
    s = same(v, t, 'm')
    i = idf(v, t, 'm')
    return {'Normal': (near & s['Normal']) | ortho(v, t, 'm') | i, 'Orthogonal': (near & s['Orthogonal']) | ortho(v, t, 'm') | i, 'Identity': (near & s['Identity'])}


def legit_inv(v, t):
    o = ortho(v, t, 'm')
    s = same(v, t, 'm')
    r = {'Normal': o, 'Orthogonal': o, 'Identity': s['Identity']}
    if t == 'M4':
        r['trs'] = o
    return r


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
