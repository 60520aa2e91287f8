from boxlib import *

META = {
    'title': 'Axis-aligned boxes: construction, containment, union and intersection',
    'statement': 'A box built from points, from a corner pair or from a centred box is the smallest box holding them, whatever the order and layout of the points, and adding a point enlarges it just enough. Union and intersection of boxes, containment of points, boxes and spheres and overlap of boxes agree with the sets of points the boxes stand for (touching counts). Translation, centred scaling, centre, extents, size, area or volume, inner and outer circle or sphere, interpolation and comparison are those of the box; setters, factories, operators and their assigning forms agree.',
    'forall': 'every box, point and sphere, up to four points in every relative order and every stride (longer arrays, to thirteen points, with the extreme point at every place), float and double',
    'why': 'tests use boxes centred at the origin with equal sides and boxes moved along diagonals; per-axis mistakes and the asymmetric and touching cases are not separated',
    'files': ['aabb2.h', 'aabb3.h', 'impl/aabb2.h', 'impl/aabb3.h'],
    'mech': [('set, add, fromUnion, fromIntersection, contains, intersects, scaleCentered', 'impl/aabb3.h'), ('the same', 'impl/aabb2.h')],
}
u = Unit('P13', META['title'])
u.prelude += PRELUDE


for n in (2, 3):
    b, p, cb, rd = 'B%d' % n, 'V%d' % n, 'CB%d' % n, ('CI' if n == 2 else 'SP')
    vec = (lambda v, o, base='', out=False, n=n: (v.v2 if n == 2 else v.v3)(o, base, out=out))
    box = (lambda v, o, out=False, vec=vec: (vec(v, o, 'inf', out), vec(v, o, 'sup', out)))

    def is_box(v, o, lo, hi, box=box):
        i, s = box(v, o, True)
        return v.eqv('inf', i, lo, o, 'inf') + v.eqv('sup', s, hi, o, 'sup')

    def proper(v, *os, box=box):
        return all_(*[x <= y for o in os for x, y in zip(*box(v, o))])

    T_ = lambda s, n=n: '%s_' % b + s
    ck = lambda nm, params, body, spec, ret='void', T_=T_: u.check(T_(nm), params, body, spec, ret)
    if True:
        for nm, body in (('ctor', 'o = %s(x, y);' % b), ('set', 'o.set(x, y);'), ('from', 'o = %s::from(x, y);' % b)):
            ck(nm, 'x:c%s y:c%s o:%s' % (p, p, b), body, lambda v, vec=vec, is_box=is_box: is_box(v, 'o', vec(v, 'x'), vec(v, 'y')))
        for nm, body in (('set_point', 'o.set(x);'), ('from_point', 'o = %s::from(x);' % b)):
            ck(nm, 'x:c%s o:%s' % (p, b), body, lambda v, vec=vec, is_box=is_box: is_box(v, 'o', vec(v, 'x'), vec(v, 'x')))
        for nm, body in (('set_centred', 'o.set(x);'), ('from_centred', 'o = %s::from(x);' % b)):
            ck(nm, 'x:c%s o:%s' % (cb, b), body, lambda v, vec=vec, is_box=is_box: is_box(v, 'o', vec(v, 'x', 'center') - vec(v, 'x', 'extents'), vec(v, 'x', 'center') + vec(v, 'x', 'extents')))
        point_checks(u, T_, n, p, b, is_box)
        ck('add', 'o:%s x:c%s' % (b, p), 'o.add(x);', lambda v, vec=vec, box=box, is_box=is_box, proper=proper: dict(pre=proper(v, 'o'), claims=is_box(v, 'o', vvmin([box(v, 'o')[0], vec(v, 'x')]), vvmax([box(v, 'o')[1], vec(v, 'x')]))))
        ck('add_contains', 'o:%s x:c%s' % (b, p), 'return o.add(x).contains(x);', lambda v, proper=proper: dict(pre=proper(v, 'o'), claims=[Holds('the added point is inside', v.ret)]), 'bool')
        ck('union', 'a:c%s b:c%s o:%s' % (b, b, b), 'o = %s::fromUnion(a, b);' % b, lambda v, box=box, is_box=is_box: is_box(v, 'o', vvmin([box(v, 'a')[0], box(v, 'b')[0]]), vvmax([box(v, 'a')[1], box(v, 'b')[1]])))

        def meet(v, box=box, is_box=is_box, proper=proper, vec=vec, n=n):
            (al, ah), (bl, bh) = box(v, 'a'), box(v, 'b')
            lo, hi = vvmax([al, bl]), vvmin([ah, bh])
            some = all_(*[x <= y for x, y in zip(lo, hi)])
            zero = V(*[0] * n)
            return dict(pre=proper(v, 'a', 'b'), claims=is_box(v, 'o', vite(some, lo, zero), vite(some, hi, zero)))
        ck('intersection', 'a:c%s b:c%s o:%s' % (b, b, b), 'o = %s::fromIntersection(a, b);' % b, meet)
        ck('intersects', 'a:c%s b:c%s' % (b, b), 'return a.intersects(b);', lambda v, box=box, proper=proper: dict(pre=proper(v, 'a', 'b'), claims=[Eq('overlap', v.ret, all_(*[(al <= bh) & (bl <= ah) for al, ah, bl, bh in zip(*(box(v, 'a') + box(v, 'b')))]))]), 'bool')
        ck('contains_point', 'a:c%s x:c%s' % (b, p), 'return a.contains(x);', lambda v, box=box, vec=vec: [Eq('contains', v.ret, inside(vec(v, 'x'), *box(v, 'a')))], 'bool')
        ck('contains_box', 'a:c%s b:c%s' % (b, b), 'return a.contains(b);', lambda v, box=box, proper=proper: dict(pre=proper(v, 'a', 'b'), claims=[Eq('contains', v.ret, inside(box(v, 'b')[0], *box(v, 'a')) & inside(box(v, 'b')[1], *box(v, 'a')))]), 'bool')
        if n == 3:
            ck('contains_sphere', 'a:c%s s:cSP' % b, 'return a.contains(s);', lambda v, box=box, vec=vec: dict(pre=v.cell('s', 'radius', 'in') >= 0, claims=[Eq('contains', v.ret, all_(*[(c - l >= v.cell('s', 'radius', 'in')) & (h - c >= v.cell('s', 'radius', 'in')) for c, l, h in zip(vec(v, 's', 'center'), *box(v, 'a'))]))]), 'bool')
        ck('union_contains', 'a:c%s b:c%s' % (b, b), '%s c = %s::fromUnion(a, b); return c.contains(a) && c.contains(b);' % (b, b), lambda v, proper=proper: dict(pre=proper(v, 'a', 'b'), claims=[Holds('contains both', v.ret)]), 'bool')
        ck('intersects_symmetric', 'a:c%s b:c%s' % (b, b), 'return a.intersects(b) == b.intersects(a);', lambda v: [Holds('symmetric', v.ret)], 'bool')
        for op, body in (('plus', 'o = a + x;'), ('plus_assign', 'o = a; o += x;')):
            ck(op, 'a:c%s x:c%s o:%s' % (b, p, b), body, lambda v, box=box, vec=vec, is_box=is_box: is_box(v, 'o', box(v, 'a')[0] + vec(v, 'x'), box(v, 'a')[1] + vec(v, 'x')))
        for op, body in (('minus', 'o = a - x;'), ('minus_assign', 'o = a; o -= x;')):
            ck(op, 'a:c%s x:c%s o:%s' % (b, p, b), body, lambda v, box=box, vec=vec, is_box=is_box: is_box(v, 'o', box(v, 'a')[0] - vec(v, 'x'), box(v, 'a')[1] - vec(v, 'x')))

        def scaled(v, inv=False, box=box, is_box=is_box):
            lo, hi = box(v, 'a')
            k = v.arg('k')
            c, e = (lo + hi) / 2, (hi - lo) / 2
            e = e / k if inv else e * k
            r = is_box(v, 'o', c - e, c + e)
            return dict(pre=k.ne(0), claims=r) if inv else r
        for op, body in (('times', 'o = a * k;'), ('times_assign', 'o = a; o *= k;'), ('scaleCentered', 'o = a; o.scaleCentered(k);')):
            ck(op, 'a:c%s k:R o:%s' % (b, b), body, scaled)
        for op, body in (('over', 'o = a / k;'), ('over_assign', 'o = a; o /= k;')):
            ck(op, 'a:c%s k:R o:%s' % (b, b), body, lambda v, scaled=scaled: scaled(v, True))
        ck('eq', 'a:c%s b:c%s' % (b, b), 'return a == b;', lambda v, box=box: [Eq('==', v.ret, all_(*[x.eq(y) for l in (0, 1) for x, y in zip(box(v, 'a')[l], box(v, 'b')[l])]))], 'bool')
        ck('ne', 'a:c%s b:c%s' % (b, b), 'return a != b;', lambda v, box=box: [Eq('!=', v.ret, ~all_(*[x.eq(y) for l in (0, 1) for x, y in zip(box(v, 'a')[l], box(v, 'b')[l])]))], 'bool')
        for nm, f in (('center', lambda lo, hi: (lo + hi) / 2), ('extents', lambda lo, hi: (hi - lo) / 2), ('size', lambda lo, hi: hi - lo)):
            ck(nm, 'a:c%s o:%s' % (b, p), 'o = a.%s();' % nm, lambda v, f=f, vec=vec, box=box: v.eqv('', vec(v, 'o', out=True), f(*box(v, 'a')), 'o'))

        def vol(v, box=box):
            lo, hi = box(v, 'a')
            r = q(1)
            for x, y in zip(lo, hi):
                r = r * (y - x)
            return [Eq('measure', v.ret, r)]
        ck('measure', 'a:c%s' % b, 'return a.%s();' % ('area' if n == 2 else 'volume'), vol, 'R')
        ck('isNull', 'a:c%s' % b, 'return a.isNull();', lambda v, box=box: [Eq('isNull', v.ret, all_(*[x.eq(y) for x, y in zip(*box(v, 'a'))]))], 'bool')
        ck('pointAt', 'a:c%s t:c%s o:%s' % (b, p, p), 'o = a.pointAt(t);', lambda v, vec=vec, box=box: v.eqv('', vec(v, 'o', out=True), Vn(l + (h - l) * t for l, h, t in zip(*(box(v, 'a') + (vec(v, 't'),)))), 'o'))
        for nm, f in (('inner', lambda e: vmin(*e) if len(e) == 2 else vmin(e[0], vmin(e[1], e[2]))), ('outer', length)):
            def ball(v, f=f, vec=vec, box=box, proper=proper):
                lo, hi = box(v, 'a')
                return dict(claims=v.eqv('center', vec(v, 'o', 'center', True), (lo + hi) / 2, 'o', 'center') + [Eq('radius', v.cell('o', 'radius', 'out'), f(Vn(vabs(x) for x in (hi - lo) / 2)))])
            ck(nm, 'a:c%s o:%s' % (b, rd), 'o = a.%s%s();' % (nm, 'Circle' if n == 2 else 'Sphere'), ball)
        for nm, lo, hi in (('Zero', 0, 0), ('One', q('-1/2'), q('1/2'))):
            ck(nm, 'o:%s' % b, 'o = %s::%s;' % (b, nm), lambda v, lo=lo, hi=hi, n=n, is_box=is_box: is_box(v, 'o', V(*[lo] * n), V(*[hi] * n)))
        ck('cast', 'a:c%s o:%s' % (b, b), 'o = a.template cast<R>();', lambda v, box=box, is_box=is_box: is_box(v, 'o', *box(v, 'a')))
        ck('roundtrip_centred', 'a:c%s o:%s' % (b, b), '%s c(a.center(), a.size()); o.set(c);' % cb, lambda v, box=box, is_box=is_box: is_box(v, 'o', *box(v, 'a')))


def long_points(unit):
    import scev
    return scev.long_points(unit, (('AABB2', 2), ('AABB3', 3)), 'point arrays')


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '', extra_rules=(long_points,))
