from report import *

META = {
    'title': 'Vector arithmetic is componentwise linear algebra',
    'statement': 'For 2-, 3- and 4-component vectors of every element type, construction, copying, sum, difference, negation, scaling, division, dot, cross and componentwise product, min, max, equality and null test give exactly the result of the textbook formula. In-place forms change only their target and agree with the value-returning forms, and chained in-place forms act on the original object.',
    'forall': 'every pair of vectors and every scalar, in float and double',
    'why': 'the tests compare a few literal vectors per operation; an error in one component, one sign or one operand order that those literals do not exercise passes',
    'files': ['vec2.h', 'vec3.h', 'vec4.h', 'impl/vec2.h', 'impl/vec3.h', 'impl/vec4.h'],
    'mech': [('operators and named vector operations', 'impl/vec2.h'), ('operators and named vector operations', 'impl/vec3.h'), ('operators and named vector operations', 'impl/vec4.h')],
}

u = Unit('P01', 'vector arithmetic')
C = 'mathlib::Coord::'
DIM = {'V2': 2, 'V3': 3, 'V4': 4}


def vec(v, t, o, out=False):
    return {2: v.v2, 3: v.v3, 4: v.v4}[DIM[t]](o, out=out)


for t, n in DIM.items():
    names = 'xyzw'[:n]
    g = lambda v, o, out=False, t=t: vec(v, t, o, out)

    def bin_(name, expr, f, t=t, g=g):
        u.check('%s_%s' % (t, name), 'a:c%s b:c%s o:%s' % (t, t, t), 'o = %s;' % expr,
                lambda v: v.eqv('', g(v, 'o', True), f(g(v, 'a'), g(v, 'b')), 'o'))

    def sc(name, expr, f, t=t, g=g):
        u.check('%s_%s' % (t, name), 'a:c%s k:R o:%s' % (t, t), 'o = %s;' % expr,
                lambda v: v.eqv('', g(v, 'o', True), f(g(v, 'a'), v.arg('k')), 'o'))

    def inpl(name, expr, f, t=t, g=g):
        u.check('%s_%s' % (t, name), 'a:%s b:c%s' % (t, t), '%s;' % expr,
                lambda v: v.eqv('', g(v, 'a', True), f(g(v, 'a'), g(v, 'b')), 'a') + v.eqv('b', g(v, 'b', True), g(v, 'b')))

    def inplk(name, expr, f, t=t, g=g):
        u.check('%s_%s' % (t, name), 'a:%s k:R' % t, '%s;' % expr,
                lambda v: v.eqv('', g(v, 'a', True), f(g(v, 'a'), v.arg('k')), 'a'))

    bin_('add', 'a + b', lambda a, b: a + b)
    bin_('sub', 'a - b', lambda a, b: a - b)
    bin_('neg', '-a', lambda a, b: -a)
    bin_('copy', 'a.copy()', lambda a, b: a)
    bin_('product', '%s::product(a, b)' % t, lambda a, b: Vn(x * y for x, y in zip(a, b)))
    bin_('min', '%s::min(a, b)' % t, lambda a, b: Vn(vmin(x, y) for x, y in zip(a, b)))
    bin_('max', '%s::max(a, b)' % t, lambda a, b: Vn(vmax(x, y) for x, y in zip(a, b)))
    bin_('addsub', '(a + b) - b', lambda a, b: a)
    sc('mulk', 'a * k', lambda a, k: a * k)
    sc('divk', 'a / k', lambda a, k: a / k)
    inpl('addeq', 'a += b', lambda a, b: a + b)
    inpl('subeq', 'a -= b', lambda a, b: a - b)
    inpl('setv', 'a.set(b)', lambda a, b: b)
    inpl('chain', '(a += b) -= b', lambda a, b: a)
    inplk('muleq', 'a *= k', lambda a, k: a * k)
    inplk('diveq', 'a /= k', lambda a, k: a / k)
    inplk('ctork', 'a = %s(k)' % t, lambda a, k: V(*[k] * len(a)))
    u.check('%s_dot' % t, 'a:c%s b:c%s' % (t, t), 'return a * b;', lambda v, g=g: [Eq('dot', v.ret, dot(g(v, 'a'), g(v, 'b')))], ret='R')
    u.check('%s_lengthSqr' % t, 'a:c%s' % t, 'return a.lengthSqr();', lambda v, g=g: [Eq('lengthSqr', v.ret, len2(g(v, 'a')))], ret='R')
    u.check('%s_length' % t, 'a:c%s' % t, 'return a.length();', lambda v, g=g: [Eq('length', v.ret, length(g(v, 'a')))], ret='R')
    u.check('%s_isNull' % t, 'a:c%s' % t, 'return a.isNull();', lambda v, g=g: [Eq('isNull', v.ret, all_(*[x.eq(0) for x in g(v, 'a')]))], ret='bool')
    u.check('%s_eq' % t, 'a:c%s b:c%s' % (t, t), 'return a == b;', lambda v, g=g: [Eq('equal', v.ret, all_(*[x.eq(y) for x, y in zip(g(v, 'a'), g(v, 'b'))]))], ret='bool')
    u.check('%s_ne' % t, 'a:c%s b:c%s' % (t, t), 'return a != b;', lambda v, g=g: [Eq('not equal', v.ret, ~all_(*[x.eq(y) for x, y in zip(g(v, 'a'), g(v, 'b'))]))], ret='bool')
    ctor = ', '.join('xyzw'[i] for i in range(n))
    ps = ' '.join('%s:R' % c for c in 'xyzw'[:n])
    u.check('%s_ctor' % t, ps + ' o:' + t, 'o = %s(%s);' % (t, ctor), lambda v, g=g, n=n: v.eqv('', g(v, 'o', True), V(*[v.arg(c) for c in 'xyzw'[:n]]), 'o'))
    u.check('%s_set' % t, ps + ' o:' + t, 'o.set(%s);' % ctor, lambda v, g=g, n=n: v.eqv('', g(v, 'o', True), V(*[v.arg(c) for c in 'xyzw'[:n]]), 'o'))
    for i in range(n):
        c = 'XYZW'[i]
        u.check('%s_setc_%s' % (t, c), 'o:%s k:R' % t, 'o.set(%s%s, k);' % (C, c),
                lambda v, g=g, i=i: v.eqv('', g(v, 'o', True), Vn(v.arg('k') if j == i else x for j, x in enumerate(g(v, 'o'))), 'o'))
        u.check('%s_moved_%s' % (t, c), 'a:c%s k:R o:%s' % (t, t), 'o = a.moved(%s%s, k);' % (C, c),
                lambda v, g=g, i=i: v.eqv('', g(v, 'o', True), Vn(x + v.arg('k') if j == i else x for j, x in enumerate(g(v, 'a'))), 'o'))
    for st in [('Zero', [0] * n)] + [('One' + 'XYZW'[i], [1 if j == i else 0 for j in range(n)]) for i in range(n)]:
        if t == 'V4' and st[0] != 'Zero' and st[0] != 'OneW':
            st = (st[0], st[1][:3] + [1])
        if t == 'V4' and st[0] == 'Zero':
            continue
        u.check('%s_%s' % (t, st[0]), 'o:%s' % t, 'o = %s::%s;' % (t, st[0]), lambda v, g=g, st=st: v.eqv('', g(v, 'o', True), V(*st[1]), 'o'))

u.check('V2_cross', 'a:cV2 b:cV2', 'return a % b;', lambda v: [Eq('cross', v.ret, cross2(v.v2('a'), v.v2('b')))], ret='R')
u.check('V2_crossProduct', 'a:cV2 b:cV2 c:cV2', 'return V2::crossProduct(a, b, c);',
        lambda v: [Eq('crossProduct', v.ret, cross2(v.v2('b') - v.v2('a'), v.v2('c') - v.v2('a')))], ret='R')
u.check('V3_cross', 'a:cV3 b:cV3 o:V3', 'o = a % b;', lambda v: v.eqv('', v.v3('o', out=True), cross(v.v3('a'), v.v3('b')), 'o'))
u.check('V3_crosseq', 'a:V3 b:cV3', 'a %= b;', lambda v: v.eqv('', v.v3('a', out=True), cross(v.v3('a'), v.v3('b')), 'a'))
for ax, e in (('X', (1, 0, 0)), ('Y', (0, 1, 0)), ('Z', (0, 0, 1)), ('NX', (-1, 0, 0)), ('NY', (0, -1, 0)), ('NZ', (0, 0, -1))):
    for k in ('Axis', 'Coord'):
        if k == 'Coord' and len(ax) > 1:
            continue
        u.check('V3_cross%s_%s' % (k, ax), 'a:cV3 o:V3', 'o = a %% mathlib::%s::%s;' % (k, ax), lambda v, e=e: v.eqv('', v.v3('o', out=True), cross(v.v3('a'), V(*e)), 'o'))
        u.check('V3_crosseq%s_%s' % (k, ax), 'a:V3', 'a %%= mathlib::%s::%s;' % (k, ax), lambda v, e=e: v.eqv('', v.v3('a', out=True), cross(v.v3('a'), V(*e)), 'a'))
u.check('V4_addeq3', 'a:V4 b:cV3', 'a += b;', lambda v: v.eqv('', v.v4('a', out=True), Vn(list(V(*v.v4('a')[:3]) + v.v3('b')) + [v.v4('a')[3]]), 'a'))
u.check('V4_subeq3', 'a:V4 b:cV3', 'a -= b;', lambda v: v.eqv('', v.v4('a', out=True), Vn(list(V(*v.v4('a')[:3]) - v.v3('b')) + [v.v4('a')[3]]), 'a'))


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
