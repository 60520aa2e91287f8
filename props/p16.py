import itertools
from boxlib import *

META = {
    'title': 'Circles and spheres: construction, containment, contact and entry of lines',
    'statement': 'A circle or sphere built from points is centred in their bounding box and just large enough to hold them all, for packed and strided points alike. Translation, scaling about the centre, comparison and data access act on centre and radius as named. A point or ball is contained exactly when all of it is within the radius, two balls intersect exactly when their centres are no further apart than the radii together, with the contact point on the other ball towards this one and the depth of the overlap; a line segment hits exactly when it comes from outside (or the surface) and enters within its length, with the entry point and its parameter. All line queries of one shape agree.',
    'forall': 'every centre, nonnegative radius, point and segment, up to three points in every relative order, float and double',
    'why': 'tests use the unit ball at the origin and axis-parallel segments; off-centre balls, segments starting inside or ending before the ball and unequal radii are not covered',
    'files': ['circle.h', 'sphere.h', 'impl/circle.h', 'impl/sphere.h'],
    'mech': [('set(count, points), contains, intersects, hits', 'impl/sphere.h'), ('set(count, points), contains, intersects, hits', 'impl/circle.h')],
}
u = Unit('P16', META['title'])
u.prelude += PRELUDE


def declare(n):
    b, p = ('CI', 'SP')[n - 2], 'V%d' % n
    vec = vecs(n)
    cr = lambda v, o, out=False: (vec(v, o, 'center', out), v.cell(o, 'radius', 'out' if out else 'in'))
    ck = lambda nm, params, body, spec, ret='void': u.check(b + '_' + nm, params, body, spec, ret)

    def is_ball(v, o, c, r):
        gc, gr = cr(v, o, True)
        return v.eqv('center', gc, c, o, 'center') + [Eq('radius', gr, w(r), (o, 'radius'))]

    for nm, body in (('ctor', 'o = %s(x, k);' % b), ('set', 'o.set(x, k);'), ('from', 'o = %s::from(x, k);' % b)):
        ck(nm, 'x:c%s k:R o:%s' % (p, b), body, lambda v: is_ball(v, 'o', vec(v, 'x'), v.arg('k')))
    for k in (1, 2, 3):
        nms = 'xyz'[:k]
        ps = ' '.join('%s:c%s' % (c, p) for c in nms)
        arr = '%s a[%d] = {%s};' % (p, k, ', '.join(nms))
        rec = 'Rec<%s> a[%d] = {%s};' % (p, k, ', '.join('{%s, 0}' % c for c in nms))

        def spec(v, nms=nms, i=None):
            pts = [vec(v, c) for c in nms]
            c = (vvmin(pts) + vvmax(pts)) / 2
            if i is not None and i < n:
                return [is_ball(v, 'o', c, 0)[i]]
            r = len2(pts[0] - c)
            for x in pts[1:]:
                r = vmax(r, len2(x - c))
            return [is_ball(v, 'o', c, sqrt(r))[n]] if i is not None else is_ball(v, 'o', c, sqrt(r))
        for nm, pre, args in (('', arr, '%d, a' % k), ('_stride', rec, '%d, &a[0].v, (int)sizeof(a[0])' % k)):
            for f, body in (('set', 'o.set(%s);' % args), ('from', 'o = %s::from(%s);' % (b, args))):
                fo = u.fn(b + '_%s_%d_points%s' % (f, k, nm), ps + ' o:%s' % b, pre + ' ' + body)
                for i in range(n + 1):
                    if k == 3 and n == 3 and i == n:
                        continue
                    u.ob(b + '_%s_%d_points%s_%d' % (f, k, nm, i), fo, lambda v, spec=spec, i=i: spec(v, i=i), budget=200000)
    for nm, k, j, body in long_arrays(n, p):
        def of_two(v):
            pts = [V(*[1 + i for i in range(n)]), vec(v, 'x')]
            c = (pts[0] + pts[1]) / 2
            return is_ball(v, 'o', c, sqrt(vmax(len2(pts[0] - c), len2(pts[1] - c))))
        ck('set_' + nm, 'x:c%s o:%s' % (p, b), body, of_two)
    if n == 3:
        # three points of which any may be the farthest, in every order, packed and strided
        for oi, order in enumerate(itertools.permutations(range(3))):
            def three(v):
                y, z = q(1) / 2, v.arg('k')
                c = V(2, q(1) / 2, z / 2)
                r = len2(c)
                for x in (V(4, 1, q(1) / 2), V(1, y, z)):
                    r = vmax(r, len2(x - c))
                return dict(pre=z >= q(1) / 2, claims=is_ball(v, 'o', c, sqrt(r)))
            xs = ['P_(R(0), R(0), R(0))', 'P_(R(4), R(1), R(0.5))', 'P_(R(1), R(0.5), k)']
            for nm, pre, args in (('', 'P_ a[3] = {%s};' % ', '.join(xs[i] for i in order), '3, a'),
                                  ('_stride', 'Rec<P_> a[3] = {%s};' % ', '.join('{%s, 0}' % xs[i] for i in order), '3, &a[0].v, (int)sizeof(a[0])')):
                ck('three_points%s_order%d' % (nm, oi), 'k:R o:%s' % b, pre.replace('P_', p) + ' o.set(%s);' % args, three)
    for op, body, sg in (('plus', 'o = a + x;', 1), ('plus_assign', 'o = a; o += x;', 1), ('minus', 'o = a - x;', -1), ('minus_assign', 'o = a; o -= x;', -1)):
        ck(op, 'a:c%s x:c%s o:%s' % (b, p, b), body, lambda v, sg=sg: is_ball(v, 'o', cr(v, 'a')[0] + vec(v, 'x') * sg, cr(v, 'a')[1]))
    for op, body in (('times', 'o = a * k;'), ('times_assign', 'o = a; o *= k;')):
        ck(op, 'a:c%s k:R o:%s' % (b, b), body, lambda v: is_ball(v, 'o', cr(v, 'a')[0], cr(v, 'a')[1] * v.arg('k')))
    for op, body in (('over', 'o = a / k;'), ('over_assign', 'o = a; o /= k;')):
        ck(op, 'a:c%s k:R o:%s' % (b, b), body, lambda v: dict(pre=v.arg('k').ne(0), claims=is_ball(v, 'o', cr(v, 'a')[0], cr(v, 'a')[1] / v.arg('k'))))

    def same(v):
        (c, r), (d, s) = cr(v, 'a'), cr(v, 'b')
        return all_(*[x.eq(y) for x, y in zip(c, d)]) & r.eq(s)
    ck('eq', 'a:c%s b:c%s' % (b, b), 'return a == b;', lambda v: [Eq('==', v.ret, same(v))], 'bool')
    ck('ne', 'a:c%s b:c%s' % (b, b), 'return a != b;', lambda v: [Eq('!=', v.ret, ~same(v))], 'bool')
    ck('data', 'a:c%s o:%s' % (b, p), 'return a.data()[%d];' % n, lambda v: [Eq('data', v.ret, cr(v, 'a')[1])], 'R')
    ck('data_center', 'a:c%s' % b, 'return a.data()[%d];' % (n - 1), lambda v: [Eq('data', v.ret, cr(v, 'a')[0][n - 1])], 'R')
    ck('data_write', 'o:%s k:R' % b, 'o.data()[%d] = k;' % n, lambda v: is_ball(v, 'o', cr(v, 'o')[0], v.arg('k')))
    ck('One', 'o:%s' % b, 'o = %s::One;' % b, lambda v: is_ball(v, 'o', V(*[0] * n), q(1)))
    ck('cast', 'a:c%s o:%s' % (b, b), 'o = a.template cast<R>();', lambda v: is_ball(v, 'o', *cr(v, 'a')))

    ck('contains_point', 'a:c%s x:c%s' % (b, p), 'return a.contains(x);', lambda v: dict(pre=cr(v, 'a')[1] >= 0, claims=[Eq('contains', v.ret, len2(vec(v, 'x') - cr(v, 'a')[0]) <= cr(v, 'a')[1] * cr(v, 'a')[1])]), 'bool')

    def holds_ball(v):
        (c, r), (d, s) = cr(v, 'a'), cr(v, 'b')
        return dict(pre=(r >= 0) & (s >= 0), claims=[Eq('contains', v.ret, (r >= s) & (len2(d - c) <= (r - s) * (r - s)))])
    ck('contains_ball', 'a:c%s b:c%s' % (b, b), 'return a.contains(b);', holds_ball, 'bool')

    def touch(v, full):
        (c, r), (d, s) = cr(v, 'a'), cr(v, 'b')
        hit = len2(d - c) <= (r + s) * (r + s)
        pre = (r >= 0) & (s >= 0)
        if not full:
            return dict(pre=pre, claims=[Eq('intersects', v.ret, hit)])
        l = length(c - d)
        h = vite(l.eq(0), d, d + (c - d) * (s / l))
        return dict(pre=pre & hit, claims=[Eq('intersects', v.ret, T), Eq('depth', v.cell('t', '', 'out'), r + s - l)] + v.eqv('hit', vec(v, 'h', '', True), h, 'h'))
    ck('intersects_ball', 'a:c%s b:c%s' % (b, b), 'return a.intersects(b);', lambda v: touch(v, False), 'bool')
    fo = u.fn(b + '_contact', 'a:c%s b:c%s h:%s t:R&' % (b, b, p), 'return a.intersects(h, t, b);', 'bool')
    u.ob(b + '_contact_found', fo, lambda v: touch(v, False))
    u.ob(b + '_contact', fo, lambda v: touch(v, True))

    def entry(v, full):
        c, r = cr(v, 'a')
        s = Vn(v.v3('l', 'start')[:n])
        d = Vn(v.v3('l', 'end')[:n]) - s
        f = s - c
        dd, df = dot(d, d), dot(d, f)
        disc = df * df - dd * (len2(f) - r * r)
        x = (-df - sqrt(disc)) / dd
        ok = dd.ne(0) & (disc >= 0) & (x >= 0) & (x <= 1)
        pre = r >= 0
        if not full:
            return dict(pre=pre, claims=[Eq('entered', v.ret, ok)])
        t = v.cell('t', '', 'out')
        h = vec(v, 'h', '', True)
        g = s + d * t - c
        return dict(pre=pre & ok, claims=[Eq('t', t, x)] + v.eqv('hit', h, s + d * x, 'h') + [Eq('on the surface', len2(h - c), r * r), Holds('entering', dot(g, d) <= 0)])
    fb = u.fn(b + '_intersects_line', 'a:c%s l:cL3' % b, 'return a.intersects(l);', 'bool')
    u.ob(b + '_intersects_line', fb, lambda v: entry(v, False))
    for nm in ('intersects', 'hits'):
        fo = u.fn(b + '_%s_line_at' % nm, 'a:c%s l:cL3 h:%s t:R&' % (b, p), 'return a.%s(h, t, l);' % nm, 'bool')
        u.ob(b + '_%s_line_at_found' % nm, fo, lambda v: entry(v, False))
        u.ob(b + '_%s_line_at' % nm, fo, lambda v: entry(v, True))


for n in (2, 3):
    declare(n)


def long_points(unit):
    import scev
    return scev.long_points(unit, (('Circle', 2), ('Sphere', 3)), 'point arrays')


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '', extra_rules=(long_points,))
