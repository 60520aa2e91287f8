from unit import *
from algebra import *

META = {
    'title': 'Plane triangles, turning direction and crossing lines',
    'statement': 'The cross product of three points is twice the signed area they enclose. A plane triangle keeps its three corners, compares equal exactly when all corners do, and, unless its corners are collinear, contains exactly the points whose barycentric coordinates are all not negative, whichever way round it is given: its corners, its edges and its convex combinations, and nothing outside. The crossing of two lines given by two points each is reported exactly when they are not parallel, with the parameters at which each line reaches the common point, and with both parameters zero otherwise.',
    'forall': 'every triangle of either orientation, every point, every four points, float and double (in exact arithmetic)',
    'why': 'plane triangles and the line crossing function have no test at all for points on an edge, clockwise corners or parallel lines',
    'files': ['impl/tri2.h', 'impl/vec2.h'],
    'mech': [('contains', 'impl/tri2.h'), ('crossProduct, intersection', 'impl/vec2.h')],
}
u = Unit('P31', META['title'])
u.types['TR'] = ('mathlib::Tri2<T>', [p + '.' + c for p in 'abc' for c in 'xy'])
tri = lambda v, o: [v.v2(o, k) for k in 'abc']
turn = lambda a, b, c: cross2(b - a, c - a)


def ck(name, params, body, spec, ret='void'):
    u.check(name, params, body, spec, ret)


ck('cross_of_three', 'a:cV2 b:cV2 c:cV2', 'return V2::crossProduct(a, b, c);', lambda v: [Eq('twice the signed area', v.ret, turn(v.v2('a'), v.v2('b'), v.v2('c')))], 'R')
ck('from', 'a:cV2 b:cV2 c:cV2 o:TR', 'o = TR::from(a, b, c);', lambda v: [Eq(k + '.' + x, v.cell('o', k + '.' + x, 'out'), v.cell(k, x, 'in'), ('o', k + '.' + x)) for k in 'abc' for x in 'xy'])
same = lambda v: all_(*[v.cell('s', l, 'in').eq(v.cell('t', l, 'in')) for l in u.types['TR'][1]])
ck('eq', 's:cTR t:cTR', 'return s == t;', lambda v: [Eq('==', v.ret, same(v))], 'bool')
ck('ne', 's:cTR t:cTR', 'return s != t;', lambda v: [Eq('!=', v.ret, ~same(v))], 'bool')


def inside(v):
    a, b, c = tri(v, 't')
    p = v.v2('p')
    k = [turn(a, b, p), turn(b, c, p), turn(c, a, p)]
    return a, b, c, p, k


def exact(v):
    a, b, c, p, k = inside(v)
    area = turn(a, b, c)
    return dict(pre=area.ne(0), claims=[Eq('contained', v.ret, ite(area > 0, all_(*[x >= 0 for x in k]), all_(*[x <= 0 for x in k])))])


f = u.fn('contains', 't:cTR p:cV2', 'return t.contains(p);', 'bool')
u.ob('contains_barycentric', f, exact)
ck('contains_combination', 't:cTR x:R y:R z:R', 'return t.contains((t.a * x + t.b * y + t.c * z) / (x + y + z));',
   lambda v: dict(pre=(v.arg('x') >= 0) & (v.arg('y') >= 0) & (v.arg('z') >= 0) & (v.arg('x') + v.arg('y') + v.arg('z') > 0), claims=[Holds('a convex combination is contained', v.ret)]), 'bool')
for k in 'abc':
    ck('contains_' + k, 't:cTR', 'return t.contains(t.%s);' % k, lambda v: [Holds('a corner is contained', v.ret)], 'bool')
ck('contains_either_way', 't:cTR p:cV2', 'return t.contains(p) == TR::from(t.a, t.c, t.b).contains(p) && t.contains(p) == TR::from(t.b, t.c, t.a).contains(p);', lambda v: [Holds('the order of the corners is irrelevant', v.ret)], 'bool')


def crossing(v):
    f, t, a, b = (v.v2(n) for n in 'ftab')
    d = cross2(t - f, b - a)
    x, y = v.r('x', out=True), v.r('y', out=True)
    p, r = f + (t - f) * x, a + (b - a) * y
    hit = d.ne(0)
    return [Eq('number of crossings', v.ret, ite(hit, q(1), q(0))), Eq('x of the common point', ite(hit, p[0], q(0)), ite(hit, r[0], q(0))), Eq('y of the common point', ite(hit, p[1], q(0)), ite(hit, r[1], q(0))),
            Holds('both parameters are zero without a crossing', hit | (x.eq(0) & y.eq(0)))]


ck('intersection', 'f:cV2 t:cV2 a:cV2 b:cV2 x:R& y:R&', 'return R(mathlib::intersection<R>(f, t, a, b, x, y));', crossing, 'R')


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
