from report import *

META = {
    'title': 'Planes: construction, distances, projections and intersections',
    'statement': 'A plane built from a normal and a distance, a point and a normal, a point and two tangents, three points, or another plane and an offset contains the points it was built from, with the unit normal on the named side. Distance is signed along the normal; moving and flipping act accordingly. Projection along the normal or a given direction lands on the plane, along that direction. Rays and segments intersect or hit (from the front) exactly when they cross the plane, at a point on it with the reported parameter, spheres with the reported depth, swept spheres when their surface touches. Three planes meet in the reported common point unless they have none.',
    'forall': 'every unit normal, offset, point, direction, ray, segment and sphere, float and double; three planes with determinant zero or beyond twice the 1e-4 threshold',
    'why': 'tests use the coordinate planes through the origin, where the offset of the plane drops out of every formula',
    'files': ['plane.h', 'impl/plane.h'],
    'mech': [('set, from, project, hits, intersects, intersectAtSinglePoint', 'impl/plane.h')],
}
u = Unit('P18', META['title'])
P3 = lambda v, o, b='', out=False: v.v3(o, b, out=out)
pl = lambda v, o, out=False: (v.v3(o, 'normal', out=out), v.cell(o, 'd', 'out' if out else 'in'))


def is_plane(v, o, n, d):
    gn, gd = pl(v, o, True)
    return v.eqv('normal', gn, n, o, 'normal') + [Eq('d', gd, w(d), (o, 'd'))]


def through(v, n, x):
    n = unit(n)
    return is_plane(v, 'o', n, dot(n, x))


ck = lambda nm, params, body, spec, ret='void': u.check(nm, params, body, spec, ret)
ck('ctor', 'n:cV3 k:R o:PL', 'o = PL(n, k);', lambda v: is_plane(v, 'o', P3(v, 'n'), v.arg('k')))
for f, s in (('set', 'o.set%s(%s);'), ('from', 'o = PL::from%s(%s);')):
    ck(f + '_normal', 'n:cV3 k:R o:PL', s % ('', 'n, k'), lambda v: is_plane(v, 'o', unit(P3(v, 'n')), v.arg('k')))
    ck(f + '_point_normal', 'x:cV3 n:cV3 o:PL', s % ('', 'x, n'), lambda v: through(v, P3(v, 'n'), P3(v, 'x')))
    ck(f + '_tangents', 'x:cV3 a:cV3 b:cV3 o:PL', s % ('FromPointAndTangents' if f == 'set' else 'PointAndTangents', 'x, a, b'), lambda v: through(v, cross(P3(v, 'a'), P3(v, 'b')), P3(v, 'x')))
    ck(f + '_points', 'x:cV3 y:cV3 z:cV3 o:PL', s % ('', 'x, y, z'), lambda v: through(v, cross(P3(v, 'y') - P3(v, 'x'), P3(v, 'z') - P3(v, 'x')), P3(v, 'x')))
    ck(f + '_offset', 'a:cPL k:R o:PL', s % ('', 'a, k'), lambda v: is_plane(v, 'o', pl(v, 'a')[0], pl(v, 'a')[1] + v.arg('k')))
for c in 'xyz':
    ck('points_on_plane_' + c, 'x:cV3 y:cV3 z:cV3', 'return PL::from(x, y, z).distance(%s);' % c, lambda v: [Eq('distance', v.ret, q(0))], 'R')
same = lambda v: all_(*[x.eq(y) for x, y in zip(pl(v, 'a')[0], pl(v, 'b')[0])]) & pl(v, 'a')[1].eq(pl(v, 'b')[1])
ck('eq', 'a:cPL b:cPL', 'return a == b;', lambda v: [Eq('==', v.ret, same(v))], 'bool')
ck('ne', 'a:cPL b:cPL', 'return a != b;', lambda v: [Eq('!=', v.ret, ~same(v))], 'bool')
for nm, b in (('move', 'o = a; o.move(k);'), ('moved', 'o = a.moved(k);')):
    ck(nm, 'a:cPL k:R o:PL', b, lambda v: is_plane(v, 'o', pl(v, 'a')[0], pl(v, 'a')[1] + v.arg('k')))
for nm, b in (('flip', 'o = a; o.flip();'), ('flipped', 'o = a.flipped();')):
    ck(nm, 'a:cPL o:PL', b, lambda v: is_plane(v, 'o', -pl(v, 'a')[0], -pl(v, 'a')[1]))
dist = lambda v, x: dot(pl(v, 'a')[0], x) - pl(v, 'a')[1]
ck('distance', 'a:cPL x:cV3', 'return a.distance(x);', lambda v: [Eq('distance', v.ret, dist(v, P3(v, 'x')))], 'R')
ck('contains', 'a:cPL x:cV3 k:R', 'return a.contains(x, k);', lambda v: [Eq('contains', v.ret, (dist(v, P3(v, 'x')) <= v.arg('k')) & (dist(v, P3(v, 'x')) >= -v.arg('k')))], 'bool')


def proj(v):
    n, d = pl(v, 'a')
    x, o = P3(v, 'x'), P3(v, 'o', '', True)
    return dict(pre=len2(n).eq(1), claims=[Eq('returned distance', v.ret, dist(v, x)), Eq('on the plane', dot(n, o), d)] + v.eqv('', o, x - n * dist(v, x), 'o'))


ck('project', 'a:cPL x:cV3 o:V3', 'return a.project(o, x);', proj, 'R')


def proj_dir(v):
    n, d = pl(v, 'a')
    x, e, o = P3(v, 'x'), P3(v, 'e'), P3(v, 'o', '', True)
    f = dot(n, e)
    return [Eq('found', v.ret, f.ne(0))], dict(pre=f.ne(0), claims=[Eq('on the plane', dot(n, o), d)] + v.eqv('', o, x - e * (dist(v, x) / f), 'o'))


fo = u.fn('project_along', 'a:cPL x:cV3 e:cV3 o:V3', 'return a.project(o, x, e);', 'bool')
u.ob('project_along_found', fo, lambda v: proj_dir(v)[0])
u.ob('project_along', fo, lambda v: proj_dir(v)[1])


def crossing(v, kind, front, rad, full):
    n, d = pl(v, 'a')
    s = P3(v, 'l', 'start')
    r = v.arg('r') if rad else q(0)
    a = dist(v, s) - r
    if kind == 'ray':
        e = P3(v, 'l', 'direction')
        f = dot(n, e)
        t = -a / f
        ok = ((f < 0) if front else f.ne(0)) & (t >= 0)
    else:
        e = P3(v, 'l', 'end') - s
        b = a + dot(n, e)
        t = a / (a - b)
        ok = (a >= 0) & (b < 0) if front else a.ne(b) & ~((a > 0) & (b > 0)) & ~((a < 0) & (b < 0))
    if not full:
        return [Eq('crosses', v.ret, ok)]
    h = P3(v, 'h', '', True)
    return dict(pre=ok, claims=[Eq('t', v.cell('t', '', 'out'), t), Eq('on the plane', dot(n, h) - d, r)] + v.eqv('hit', h, s + e * t, 'h'))


for nm, kind, front, rad in (('hits_ray', 'ray', True, False), ('hits_line', 'line', True, False), ('hits_swept', 'line', True, True), ('intersects_ray', 'ray', False, False), ('intersects_line', 'line', False, False)):
    f = u.fn(nm, 'a:cPL l:c%s h:V3 t:R&%s' % ('R3' if kind == 'ray' else 'L3', ' r:R' if rad else ''), 'return a.%s(h, t, l%s);' % (nm.split('_')[0], ', r' if rad else ''), 'bool')
    u.ob(nm + '_found', f, lambda v, k=(kind, front, rad): crossing(v, *k, False))
    u.ob(nm, f, lambda v, k=(kind, front, rad): crossing(v, *k, True))


def ball(v, front, full):
    e = dist(v, v.v3('s', 'center'))
    r = v.cell('s', 'radius', 'in')
    ok = (e <= r) & ((e >= 0) if front else (e >= -r))
    pre = (r >= 0) & len2(pl(v, 'a')[0]).eq(1)
    if not full:
        return dict(pre=pre, claims=[Eq('touches', v.ret, ok)])
    return dict(pre=pre & ok, claims=[Eq('depth', v.cell('t', '', 'out'), r - e)])


for nm, front in (('hits', True), ('intersects', False)):
    f = u.fn(nm + '_sphere', 'a:cPL s:cSP t:R&', 'return a.%s(t, s);' % nm, 'bool')
    u.ob(nm + '_sphere_found', f, lambda v, front=front: ball(v, front, False))
    u.ob(nm + '_sphere', f, lambda v, front=front: ball(v, front, True))


def three(v, case):
    (a, da), (b, db), (c, dc) = pl(v, 'a'), pl(v, 'b'), pl(v, 'c')
    D = dot(cross(a, b), c)
    x = P3(v, 'x', '', True)
    if case == 'none':
        return dict(pre=D.eq(0), claims=[Eq('found', v.ret, ~T)] + v.eqv('', x, V(0, 0, 0), 'x'))
    pre = (D > q('1/5000')) | (D < q('-1/5000'))
    if case == 'found':
        return dict(pre=pre, claims=[Eq('found', v.ret, T)])
    return dict(pre=pre, claims=[Eq('on plane %d' % i, dot(n, x), d) for i, (n, d) in enumerate(((a, da), (b, db), (c, dc)))])


f = u.fn('three_planes', 'a:cPL b:cPL c:cPL x:V3', 'return PL::intersectAtSinglePoint(x, a, b, c);', 'bool')
for c in ('none', 'found', 'point'):
    u.ob('three_planes_' + c, f, lambda v, c=c: three(v, c))
for i, nm in enumerate(('normal.x', 'normal.y', 'normal.z', 'd')):
    ck('data_%d' % i, 'a:cPL', 'return a.data()[%d];' % i, lambda v, nm=nm: [Eq('data', v.ret, v.cell('a', nm, 'in'))], 'R')
ck('data_write', 'o:PL k:R', 'o.data()[3] = k;', lambda v: is_plane(v, 'o', pl(v, 'o')[0], v.arg('k')))
for nm, n in (('XY', (0, 0, 1)), ('YZ', (1, 0, 0)), ('ZX', (0, 1, 0))):
    ck(nm, 'o:PL', 'o = PL::%s;' % nm, lambda v, n=n: is_plane(v, 'o', V(*n), q(0)))
ck('cast', 'a:cPL o:PL', 'o = a.template cast<R>();', lambda v: is_plane(v, 'o', *pl(v, 'a')))


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
