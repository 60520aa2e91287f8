from boxlib import *

META = {
    'title': 'Centred axis-aligned boxes agree with the boxes they stand for',
    'statement': 'A centred box (centre and half size) stands for the box from centre minus to centre plus extents. Building it from a centre and full size, from points in any order and layout, from corners or from a corner box, adding a point, translating, scaling about the centre, comparing, measuring, inner and outer circle or sphere, interpolating with parameters from -1 to 1, containing points, boxes and spheres and overlapping other boxes all give what that box gives; converting to a corner box and back changes nothing; setters, factories, operators and assigning forms agree.',
    'forall': 'every box, point and sphere, up to four points in every relative order and every stride (longer arrays, to thirteen points, with the extreme point at every place), float and double',
    'why': 'tests use boxes centred at the origin, mostly cubes; off-centre, unequal and touching cases separate the axes and the half/full size conventions',
    'files': ['caabb2.h', 'caabb3.h', 'impl/caabb2.h', 'impl/caabb3.h'],
    'mech': [('set, add, from, contains, intersects', 'impl/caabb3.h'), ('set, add, from, fromInfSup, contains, intersects', 'impl/caabb2.h')],
}
u = Unit('P15', META['title'])
u.prelude += PRELUDE


def declare(n):
    b, p, ab, rd = 'CB%d' % n, 'V%d' % n, 'B%d' % n, ('CI' if n == 2 else 'SP')
    vec = vecs(n)
    ce = lambda v, o, out=False: (vec(v, o, 'center', out), vec(v, o, 'extents', out))
    corners = lambda v, o: (vec(v, o, 'center') - vec(v, o, 'extents'), vec(v, o, 'center') + vec(v, o, 'extents'))
    proper = lambda v, *os: all_(*[x >= 0 for o in os for x in vec(v, o, 'extents')])
    ck = lambda nm, params, body, spec, ret='void': u.check(b + '_' + nm, params, body, spec, ret)

    def is_ce(v, o, c, e):
        gc, ge = ce(v, o, True)
        return v.eqv('center', gc, c, o, 'center') + v.eqv('extents', ge, e, o, 'extents')

    def is_box(v, o, lo, hi):
        return is_ce(v, o, (lo + hi) / 2, (hi - lo) / 2)

    for nm, body in (('ctor', 'o = %s(x, y);' % b), ('set', 'o.set(x, y);'), ('from', 'o = %s::from(x, y);' % b)):
        ck(nm, 'x:c%s y:c%s o:%s' % (p, p, b), body, lambda v: is_ce(v, 'o', vec(v, 'x'), vec(v, 'y') / 2))
    for nm, body in (('set_point', 'o.set(x);'), ('from_point', 'o = %s::from(x);' % b)):
        ck(nm, 'x:c%s o:%s' % (p, b), body, lambda v: is_ce(v, 'o', vec(v, 'x'), V(*[0] * n)))
    forms = [('set_corners', 'o.set(x);')] + ([('from_corners', 'o = %s::from(x);' % b)] if n == 3 else [('from_corners', 'o = %s::fromInfSup(x.inf, x.sup);' % b)])
    for nm, body in forms:
        ck(nm, 'x:c%s o:%s' % (ab, b), body, lambda v: is_box(v, 'o', vec(v, 'x', 'inf'), vec(v, 'x', 'sup')))
    point_checks(u, lambda s: b + '_' + s, n, p, b, is_box)
    ck('add', 'o:%s x:c%s' % (b, p), 'o.add(x);', lambda v: dict(pre=proper(v, 'o'), claims=is_box(v, 'o', vvmin([corners(v, 'o')[0], vec(v, 'x')]), vvmax([corners(v, 'o')[1], vec(v, 'x')]))))
    ck('add_contains', 'o:%s x:c%s' % (b, p), 'return o.add(x).contains(x);', lambda v: dict(pre=proper(v, 'o'), claims=[Holds('the added point is inside', v.ret)]), 'bool')
    ck('intersects', 'a:c%s b:c%s' % (b, b), 'return a.intersects(b);', lambda v: dict(pre=proper(v, 'a', 'b'), claims=[Eq('overlap', v.ret, all_(*[(al <= bh) & (bl <= ah) for al, ah, bl, bh in zip(*(corners(v, 'a') + corners(v, 'b')))]))]), 'bool')
    ck('contains_point', 'a:c%s x:c%s' % (b, p), 'return a.contains(x);', lambda v: [Eq('contains', v.ret, inside(vec(v, 'x'), *corners(v, 'a')))], 'bool')
    ck('contains_box', 'a:c%s b:c%s' % (b, b), 'return a.contains(b);', lambda v: dict(pre=proper(v, 'a', 'b'), claims=[Eq('contains', v.ret, inside(corners(v, 'b')[0], *corners(v, 'a')) & inside(corners(v, 'b')[1], *corners(v, 'a')))]), 'bool')
    if n == 3:
        ck('contains_sphere', 'a:c%s s:cSP' % b, 'return a.contains(s);', lambda v: dict(pre=v.cell('s', 'radius', 'in') >= 0, claims=[Eq('contains', v.ret, all_(*[(c - l >= v.cell('s', 'radius', 'in')) & (h - c >= v.cell('s', 'radius', 'in')) for c, l, h in zip(vec(v, 's', 'center'), *corners(v, 'a'))]))]), 'bool')
    for op, body, sg in (('plus', 'o = a + x;', 1), ('plus_assign', 'o = a; o += x;', 1), ('minus', 'o = a - x;', -1), ('minus_assign', 'o = a; o -= x;', -1)):
        ck(op, 'a:c%s x:c%s o:%s' % (b, p, b), body, lambda v, sg=sg: is_ce(v, 'o', ce(v, 'a')[0] + vec(v, 'x') * sg, ce(v, 'a')[1]))
    for op, body in (('times', 'o = a * k;'), ('times_assign', 'o = a; o *= k;')):
        ck(op, 'a:c%s k:R o:%s' % (b, b), body, lambda v: is_ce(v, 'o', ce(v, 'a')[0], ce(v, 'a')[1] * v.arg('k')))
    for op, body in (('over', 'o = a / k;'), ('over_assign', 'o = a; o /= k;')):
        ck(op, 'a:c%s k:R o:%s' % (b, b), body, lambda v: dict(pre=v.arg('k').ne(0), claims=is_ce(v, 'o', ce(v, 'a')[0], ce(v, 'a')[1] / v.arg('k'))))
    ck('eq', 'a:c%s b:c%s' % (b, b), 'return a == b;', lambda v: [Eq('==', v.ret, all_(*[x.eq(y) for l in (0, 1) for x, y in zip(ce(v, 'a')[l], ce(v, 'b')[l])]))], 'bool')
    ck('ne', 'a:c%s b:c%s' % (b, b), 'return a != b;', lambda v: [Eq('!=', v.ret, ~all_(*[x.eq(y) for l in (0, 1) for x, y in zip(ce(v, 'a')[l], ce(v, 'b')[l])]))], 'bool')
    for nm, f in (('inf', lambda c, e: c - e), ('sup', lambda c, e: c + e), ('size', lambda c, e: e * 2)):
        ck(nm, 'a:c%s o:%s' % (b, p), 'o = a.%s();' % nm, lambda v, f=f: v.eqv('', vec(v, 'o', out=True), f(*ce(v, 'a')), 'o'))

    def vol(v):
        r = q(1)
        for x in ce(v, 'a')[1]:
            r = r * (x * 2)
        return [Eq('measure', v.ret, r)]
    ck('measure', 'a:c%s' % b, 'return a.%s();' % ('area' if n == 2 else 'volume'), vol, 'R')
    ck('isNull', 'a:c%s' % b, 'return a.isNull();', lambda v: [Eq('isNull', v.ret, all_(*[x.eq(0) for x in ce(v, 'a')[1]]))], 'bool')
    ck('pointAt', 'a:c%s t:c%s o:%s' % (b, p, p), 'o = a.pointAt(t);', lambda v: v.eqv('', vec(v, 'o', out=True), Vn(c + e * t for c, e, t in zip(*(ce(v, 'a') + (vec(v, 't'),)))), 'o'))
    for nm, f in (('inner', lambda e: vmin(*e) if len(e) == 2 else vmin(e[0], vmin(e[1], e[2]))), ('outer', length)):
        ck(nm, 'a:c%s o:%s' % (b, rd), 'o = a.%s%s();' % (nm, 'Circle' if n == 2 else 'Sphere'),
           lambda v, f=f: dict(claims=v.eqv('center', vec(v, 'o', 'center', True), ce(v, 'a')[0], 'o', 'center') + [Eq('radius', v.cell('o', 'radius', 'out'), f(Vn(vabs(x) for x in ce(v, 'a')[1])))]))
    ck('One', 'o:%s' % b, 'o = %s::One;' % b, lambda v: is_ce(v, 'o', V(*[0] * n), V(*[q('1/2')] * n)))
    ck('cast', 'a:c%s o:%s' % (b, b), 'o = a.template cast<R>();', lambda v: is_ce(v, 'o', *ce(v, 'a')))
    ck('roundtrip_corners', 'a:c%s o:%s' % (b, b), '%s c; c.set(a); o.set(c);' % ab, lambda v: is_ce(v, 'o', *ce(v, 'a')))


for n in (2, 3):
    declare(n)


def long_points(unit):
    import scev
    return scev.long_points(unit, (('CAABB2', 2), ('CAABB3', 3)), 'point arrays')


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '', extra_rules=(long_points,))
