from matlib import *

META = {
    'title': 'Frustum: corners, clipping planes, containment and intersection',
    'statement': 'A frustum keeps its eight corners (moved by the given frame when there is one) and derives six clipping planes: each has a unit normal pointing out of the frustum and passes through the four corners of its side. A point is contained exactly when it is in front of none of the six planes, a sphere exactly when its whole extent is, and a sphere intersects exactly when no plane has all of it in front. Conversion between precisions keeps corners and planes.',
    'forall': 'every frustum whose near side is a parallelogram and whose far side is parallel and scaled, in any position and orientation, every frame, point and sphere, float and double',
    'why': 'tests use one axis-aligned cube, whose side planes cannot be told apart from wrongly wound ones of skewed or tapered frusta; frames are tested for translation only',
    'files': ['frustum.h', 'impl/frustum.h'],
    'mech': [('computePlanes, contains, intersects', 'impl/frustum.h')],
}
u = Unit('P19', META['title'])
C3 = lambda v, o, i, out=False: v.v3(o, 'corners[%d]' % i, out)
PN = lambda v, o, i, out=False: (v.v3(o, 'planes[%d].normal' % i, out), v.cell(o, 'planes[%d].d' % i, 'out' if out else 'in'))
SIDES = {0: (4, 5, 6, 7), 1: (3, 2, 1, 0), 2: (3, 7, 6, 2), 3: (0, 4, 7, 3), 4: (1, 5, 4, 0), 5: (1, 2, 6, 5)}
NAMES = ['far', 'near', 'left', 'top', 'right', 'bottom']
# near side x, x-q, x-p-q, x-p (p to the right, q up), far side the near side scaled by k about x and moved by e
BUILD = 'V3 c[8]; c[0] = x; c[1] = x - q; c[2] = x - p - q; c[3] = x - p; for (int i = 0; i < 4; i++) c[i + 4] = x + (c[i] - x) * k + e; '


def near_far(v):
    x, p, w_ = v.v3('x'), v.v3('p'), v.v3('q')
    near = [x, x - w_, x - p - w_, x - p]
    return near + [x + (c - x) * v.arg('k') + v.v3('e') for c in near]


PAR = 'x:cV3 p:cV3 q:cV3 e:cV3 k:R '
for nm, par, fr, mv in (('set', '', 'o.set(c);', lambda v, c: c),
                        ('ctor', '', 'o = FR(c);', lambda v, c: c),
                        ('set_mat34', 'm:cM34 ', 'o.set(m, c);', lambda v, c: v.m3('m', 'rs') * c + v.v3('m', 't')),
                        ('set_mat4', 'm:cM4 ', 'o.set(m, c);', lambda v, c: V(*[dot(Vn(r), Vn(list(c) + [q(1)])) for r in list(v.m4('m'))[:3]]))):
    f = u.fn(nm, PAR + par + 'o:FR', BUILD + fr)
    for i in range(8):
        def corner(v, i=i, mv=mv):
            return v.eqv('corner %d' % i, C3(v, 'o', i, True), mv(v, near_far(v)[i]), 'o', 'corners[%d]' % i)
        u.ob('%s_corner_%d' % (nm, i), f, corner)
f = u.fns['set']
for i, side in SIDES.items():
    def plane(v, i=i, side=side, what=''):
        n, d = PN(v, 'o', i, True)
        cs = near_far(v)
        vol = dot(cross(v.v3('p'), v.v3('q')), v.v3('e'))
        # right-handed corner order: the far side lies on the negative side of p x q
        area = lambda a, b, c: len2(cross(cs[b] - cs[a], cs[c] - cs[a])).ne(0)
        # the corners of a side that has a volume behind it span a plane (implied by the sign of the volume; given as a fact)
        pre = (v.arg('k') > 0) & (vol < 0) & all_(*[area(*(side * 2)[j:j + 3]) for j in range(4)])
        inner = cs[[j for j in range(8) if j not in side][0]]
        if what == 'through':
            return dict(pre=pre, claims=[Eq('corner %d lies on the %s plane' % (j, NAMES[i]), dot(n, cs[j]), d, ('o', 'planes[%d].d' % i)) for j in side])
        if what == 'unit':
            return dict(pre=pre, claims=[Eq('length of the %s normal' % NAMES[i], len2(n), q(1), ('o', 'planes[%d].normal.x' % i))])
        return dict(pre=pre, claims=[Holds('the %s plane faces outwards' % NAMES[i], dot(n, inner) < d, ('o', 'planes[%d].normal.x' % i))])
    for what in ('through', 'unit', 'out'):
        u.ob('plane_%s_%s' % (NAMES[i], what), f, lambda v, i=i, what=what, plane=plane: plane(v, i, SIDES[i], what))

dist = lambda v, i, x: dot(PN(v, 'a', i)[0], x) - PN(v, 'a', i)[1]
for t in 'V3 V4'.split():
    u.check('contains_' + t, 'a:cFR x:c' + t, 'return a.contains(x);', lambda v: [Eq('contains', v.ret, all_(*[dist(v, i, v.v3('x')) <= 0 for i in range(6)]))], 'bool')
sph = lambda v: (v.v3('s', 'center'), v.cell('s', 'radius', 'in'))
u.check('contains_sphere', 'a:cFR s:cSP', 'return a.contains(s);', lambda v: [Eq('contains', v.ret, all_(*[dist(v, i, sph(v)[0]) <= -sph(v)[1] for i in range(6)]))], 'bool')
u.check('intersects_sphere', 'a:cFR s:cSP', 'return a.intersects(s);', lambda v: [Eq('intersects', v.ret, all_(*[dist(v, i, sph(v)[0]) <= sph(v)[1] for i in range(6)]))], 'bool')


def cast(v):
    r = []
    for i in range(8):
        r += v.eqv('corner %d' % i, C3(v, 'o', i, True), C3(v, 'a', i), 'o', 'corners[%d]' % i)
    for i in range(6):
        r += v.eqv('%s normal' % NAMES[i], PN(v, 'o', i, True)[0], PN(v, 'a', i)[0], 'o', 'planes[%d].normal' % i) + [Eq('%s d' % NAMES[i], PN(v, 'o', i, True)[1], PN(v, 'a', i)[1], ('o', 'planes[%d].d' % i))]
    return r


u.check('cast', 'a:cFR o:FR', 'o = a.template cast<R>();', cast)


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
