from matlib import *
from boxlib import vecs

META = {
    'title': 'Lines and rays: points, lengths, distances and the axes of a frame',
    'statement': 'A line keeps its two ends and a ray its start and the unit vector of its direction. The point at a parameter moves from start to end (line, parameter 0 to 1) or by that distance along the ray; length, squared length, null test and comparison are those of the difference of the ends. The distance of a point from a line is the distance from its nearest point on the infinite line, zero for points on it, and from the single point when the ends coincide; from a ray it is that from the half-line. The local axis and local planes of a frame start at its translation with the unit vector of the named column, negated for negative axes.',
    'forall': 'every pair of ends or start and direction, every point and parameter, every axis, float and double',
    'why': 'tests use points in one plane off axis-parallel lines; points on the line, behind the start, skew lines in space and non-unit directions are not covered',
    'files': ['line2.h', 'line3.h', 'ray2.h', 'ray3.h', 'impl/line2.h', 'impl/line3.h', 'impl/ray2.h', 'impl/ray3.h', 'impl/mat34.h', 'impl/mat4.h'],
    'mech': [('distance, pointAt', 'impl/line3.h'), ('distance, from', 'impl/ray3.h'), ('localAxis, localPlane', 'impl/mat34.h')],
}
u = Unit('P17', META['title'])


def declare(n):
    p, ln, ry = 'V%d' % n, 'L%d' % n, 'R%d' % n
    vec = vecs(n)
    off2 = (lambda a, d: cross2(a, d) * cross2(a, d)) if n == 2 else (lambda a, d: len2(cross(a, d)))
    ck = lambda nm, params, body, spec, ret='void': u.check(nm, params, body, spec, ret)

    def both(v, o, f, a, g, b):
        return v.eqv(f, vec(v, o, f, True), a, o, f) + v.eqv(g, vec(v, o, g, True), b, o, g)
    ck(ln + '_from', 'x:c%s y:c%s o:%s' % (p, p, ln), 'o = %s::from(x, y);' % ln, lambda v: both(v, 'o', 'start', vec(v, 'x'), 'end', vec(v, 'y')))
    ck(ry + '_from', 'x:c%s y:c%s o:%s' % (p, p, ry), 'o = %s::from(x, y);' % ry, lambda v: both(v, 'o', 'start', vec(v, 'x'), 'direction', unit(vec(v, 'y'))))
    for t, f in ((ln, 'end'), (ry, 'direction')):
        same = lambda v, f=f: all_(*[x.eq(y) for g in ('start', f) for x, y in zip(vec(v, 'a', g), vec(v, 'b', g))])
        ck(t + '_eq', 'a:c%s b:c%s' % (t, t), 'return a == b;', lambda v, same=same: [Eq('==', v.ret, same(v))], 'bool')
        ck(t + '_ne', 'a:c%s b:c%s' % (t, t), 'return a != b;', lambda v, same=same: [Eq('!=', v.ret, ~same(v))], 'bool')
    d = lambda v: vec(v, 'a', 'end') - vec(v, 'a', 'start')
    ck(ln + '_length', 'a:c%s' % ln, 'return a.length();', lambda v: [Eq('length', v.ret, length(d(v)))], 'R')
    ck(ln + '_lengthSqr', 'a:c%s' % ln, 'return a.lengthSqr();', lambda v: [Eq('lengthSqr', v.ret, len2(d(v)))], 'R')
    ck(ln + '_isNull', 'a:c%s' % ln, 'return a.isNull();', lambda v: [Eq('isNull', v.ret, all_(*[x.eq(0) for x in d(v)]))], 'bool')
    ck(ln + '_pointAt', 'a:c%s k:R o:%s' % (ln, p), 'o = a.pointAt(k);', lambda v: v.eqv('', vec(v, 'o', '', True), vec(v, 'a', 'start') + d(v) * v.arg('k'), 'o'))
    ck(ry + '_pointAt', 'a:c%s k:R o:%s' % (ry, p), 'o = a.pointAt(k);', lambda v: v.eqv('', vec(v, 'o', '', True), vec(v, 'a', 'start') + vec(v, 'a', 'direction') * v.arg('k'), 'o'))
    ck(ln + '_cast', 'a:c%s o:%s' % (ln, ln), 'o = a.template cast<R>();', lambda v: both(v, 'o', 'start', vec(v, 'a', 'start'), 'end', vec(v, 'a', 'end')))
    def rcast(v):
        # the same unit vector: parallel, same sense, length one (a copy and a renormalised copy are both right)
        g, e = vec(v, 'o', 'direction', True), vec(v, 'a', 'direction')
        turn = [cross2(g, e)] if n == 2 else list(cross(g, e))
        return dict(pre=len2(e).eq(1), claims=v.eqv('start', vec(v, 'o', 'start', True), vec(v, 'a', 'start'), 'o', 'start') + [Eq('parallel %d' % i, t, q(0)) for i, t in enumerate(turn)] + [Holds('same sense', dot(g, e) > 0), Eq('length', len2(g), q(1))])
    ck(ry + '_cast', 'a:c%s o:%s' % (ry, ry), 'o = a.template cast<R>();', rcast)

    def ldist(v, onit):
        s, e, x = vec(v, 'a', 'start'), d(v), vec(v, 'x')
        if onit:
            # x = start + k * (end - start)
            k = v.arg('k')
            return dict(pre=len2(e).ne(0) & all_(*[a.eq(b + c * k) for a, b, c in zip(x, s, e)]), claims=[Eq('distance', v.ret, q(0))])
        r = x - s
        return [Holds('not negative', v.ret >= 0), Eq('squared distance', v.ret * v.ret, ite(len2(e).eq(0), len2(r), off2(r, e) / len2(e)))]
    fo = u.fn(ln + '_distance', 'a:c%s x:c%s k:R' % (ln, p), 'return a.distance(x);', 'R')
    u.ob(ln + '_distance', fo, lambda v: ldist(v, False))
    u.ob(ln + '_distance_on_line', fo, lambda v: ldist(v, True))

    def rdist(v, case):
        s, e, x = vec(v, 'a', 'start'), vec(v, 'a', 'direction'), vec(v, 'x')
        r = x - s
        k = v.arg('k')
        pre = len2(e).eq(1)
        if case == 'null':
            return dict(pre=len2(e).eq(0), claims=[Eq('distance', v.ret, length(r))])
        if case == 'on':
            return dict(pre=pre & (k >= 0) & all_(*[a.eq(b + c * k) for a, b, c in zip(x, s, e)]), claims=[Eq('distance', v.ret, q(0))])
        if case == 'ahead':
            return dict(pre=pre & (dot(r, e) > 0), claims=[Holds('not negative', v.ret >= 0), Eq('squared distance', v.ret * v.ret, off2(r, e))])
        return dict(pre=pre & (dot(r, e) <= 0), claims=[Eq('distance', v.ret, length(r))])
    fo = u.fn(ry + '_distance', 'a:c%s x:c%s k:R' % (ry, p), 'return a.distance(x);', 'R')
    for c in ('ahead', 'behind', 'on', 'null'):
        u.ob(ry + '_distance_' + c, fo, lambda v, c=c: rdist(v, c))


for n in (2, 3):
    declare(n)

AX = {'X': (0, 1), 'Y': (1, 1), 'Z': (2, 1), 'NX': (0, -1), 'NY': (1, -1), 'NZ': (2, -1)}


def frame(v, t):
    if t == 'M34':
        return v.m3('m', 'rs').cols(), v.v3('m', 't')
    c = v.m4('m').cols()
    return [Vn(x[:3]) for x in c[:3]], Vn(c[3][:3])


for t in ('M34', 'M4'):
    for c in 'XYZ':
        def axis(v, t=t, c=c):
            cs, o = frame(v, t)
            return v.eqv('start', v.v3('o', 'start', True), o, 'o', 'start') + v.eqv('direction', v.v3('o', 'direction', True), unit(cs[AX[c][0]]), 'o', 'direction')
        u.check('%s_localAxis_%s' % (t, c), 'm:c%s o:R3' % t, 'o = m.localAxis(%s%s);' % (C, c), axis)
    for e, names in (('Coord', 'XYZ'), ('Axis', ('X', 'Y', 'Z', 'NX', 'NY', 'NZ'))):
        for c in names:
            def plane(v, t=t, c=c):
                cs, o = frame(v, t)
                i, s = AX[c]
                nrm = unit(cs[i] * s)
                return v.eqv('normal', v.v3('o', 'normal', True), nrm, 'o', 'normal') + [Eq('d', v.cell('o', 'd', 'out'), dot(nrm, o))]
            u.check('%s_localPlane_%s_%s' % (t, e, c), 'm:c%s o:PL' % t, 'o = m.localPlane(mathlib::%s::%s);' % (e, c), plane)


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
