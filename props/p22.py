import os
from matlib import *

META = {
    'title': 'Spline solvers: smooth Bézier splines through given points',
    'statement': 'Each spline solver returns true and fills the inner control points of one Bézier segment between consecutive points so that neighbouring segments meet with equal tangent and equal curvature vector. The natural spline has zero second derivative at both ends, the clamped spline starts and ends with the given control points, and the closed spline continues from the last point to the first in the same smooth way. Only the output elements of the segments are written, and every temporary array is accessed inside its bounds and released.',
    'forall': 'every position of the points, every number of points up to 9 as well as 12, 17 and 33 (natural, clamped) or up to 9 and 12 (closed), float and double',
    'why': 'tests solve four-point splines and compare with stored numbers; two-point closed splines, longer splines and the ends of the arrays are not covered',
    'files': ['spline3.h', 'impl/spline3.h', 'impl/linearequations.h'],
    'mech': [('SplineSolver3', 'impl/spline3.h'), ('TriDiagonal, GaussJordan', 'impl/linearequations.h')],
}
u = Unit('P22', META['title'])
DEEP = os.environ.get('VERIF_TIER') == 'thorough'
MAX = 68 if DEEP else 36
OPEN = [2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 33] + [10, 11, 13, 24, 66] * DEEP
CLOSED = [2, 3, 4, 5, 6, 7, 8, 9, 12] + [10, 17, 33] * DEEP
u.prelude += 'template <class T> struct VA { mathlib::Vec3<T> v[%d]; };\n' % MAX
u.types['A'] = ('VA<T>', ['v[%d].%s' % (i, c) for i in range(MAX) for c in 'xyz'])
at = lambda v, o, i, out=False: v.v3(o, 'v[%d]' % i, out)


def spec(v, n, kind, what):
    """what must hold of the control points b (first inner) and c (second inner) of every segment"""
    p = [at(v, 'p', i) for i in range(n)]
    segs = n if kind == 'closed' else n - 1
    b = [at(v, 'b', i, True) for i in range(segs)]
    c = [at(v, 'c', i, True) for i in range(segs)]
    end = lambda i: p[(i + 1) % n]
    if what == 'solved':
        return [Eq('solved', v.ret, T)]
    if what == 'memory':
        return v.nofault(p=3 * n, b=3 * segs, c=3 * segs)
    if what == 'rest':
        return sum([v.eqv('%s[%d] is left alone' % (o, i), at(v, o, i, True), at(v, o, i), o, 'v[%d]' % i) for o in 'bc' for i in range(segs, min(segs + 2, MAX))] +
                   [v.eqv('point %d is left alone' % i, at(v, 'p', i, True), p[i], 'p', 'v[%d]' % i) for i in range(n)], [])
    joints = range(segs) if kind == 'closed' else range(segs - 1)
    r = []
    if what == 'tangent':
        for i in joints:
            j = (i + 1) % segs
            r += v.eqv('tangents meet at point %d' % j, end(i) - c[i], b[j] - end(i), 'c', 'v[%d]' % i)
    elif what == 'curvature':
        for i in joints:
            j = (i + 1) % segs
            r += v.eqv('curvatures meet at point %d' % j, b[i] - c[i] * 2, c[j] - b[j] * 2, 'b', 'v[%d]' % i)
    elif kind == 'natural':
        r += v.eqv('second derivative at the start', p[0] - b[0] * 2 + c[0], V(0, 0, 0), 'b', 'v[0]')
        r += v.eqv('second derivative at the end', b[-1] - c[-1] * 2 + p[-1], V(0, 0, 0), 'c', 'v[%d]' % (segs - 1))
    elif kind == 'clamped':
        r += v.eqv('first control point', b[0], v.v3('s'), 'b', 'v[0]')
        r += v.eqv('last control point', c[-1], v.v3('e'), 'c', 'v[%d]' % (segs - 1))
    return r


for kind, top, extra, call in (('natural', OPEN, '', 'naturalBezierSpline(%d, p.v, b.v, c.v)'), ('clamped', OPEN, 's:cV3 e:cV3 ', 'bezierSpline(%d, p.v, s, e, b.v, c.v)'), ('closed', CLOSED, '', 'closedBezierSpline(%d, p.v, b.v, c.v)')):
    for n in top:
        f = u.fn('%s_%d' % (kind, n), 'p:A b:A c:A ' + extra, 'return mathlib::SplineSolver3<R>::%s;' % (call % n), 'bool')
        for what in ('solved', 'memory', 'rest', 'tangent', 'curvature') + (('ends',) if kind != 'closed' else ()):
            if n == 2 and kind != 'closed' and what in ('tangent', 'curvature'):
                continue
            u.ob('%s_%d_%s' % (kind, n, what), f, lambda v, n=n, kind=kind, what=what: spec(v, n, kind, what))


def long_splines(unit):
    """The spline solvers with more points than any unrolling reaches: no access leaves its array, every control point is stored."""
    import scev
    forms = []
    for real, w in (('float', 4), ('double', 8)):
        v = 3 * w
        n = 70001
        pts = 'const Vec3<%s>* p, Vec3<%s>* q, Vec3<%s>* r' % (real, real, real)
        io, out = {'p': n * v, 'q': (n - 1) * v, 'r': (n - 1) * v}, {'q': (n - 1) * v, 'r': (n - 1) * v}
        forms += [('naturalBezierSpline', real, pts, 'SplineSolver3<%s>::naturalBezierSpline(%d, p, q, r)' % (real, n), io, out),
                  ('bezierSpline', real, pts + ', const Vec3<%s>& s, const Vec3<%s>& e' % (real, real), 'SplineSolver3<%s>::bezierSpline(%d, p, s, e, q, r)' % (real, n), dict(io, s=v, e=v), out)]
        n = 130
        forms += [('closedBezierSpline', real, pts, 'SplineSolver3<%s>::closedBezierSpline(%d, p, q, r)' % (real, n), {'p': n * v, 'q': n * v, 'r': n * v}, {'q': n * v, 'r': n * v})]
    return scev.long_systems(unit, forms, 'spline solvers')


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '', extra_rules=(long_splines,))
