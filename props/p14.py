import itertools
from report import *

META = {
    'title': 'Rays and line segments against axis-aligned boxes',
    'statement': 'A box intersects a ray or a line segment exactly when the two share a point (touching counts), and the two parameters reported are where the common part begins and ends, the beginning being the start of the ray or segment when that lies inside. hits reports exactly the rays and segments that come from outside (or from the boundary) and enter the box, with the parameter of the entry point.',
    'forall': 'every ray and segment of nonzero direction, axis-parallel components included, every proper box, 2D and 3D, float and double; distances below the largest number of the type',
    'why': 'tests shoot axis-parallel and exactly diagonal rays at a cube around the origin; a start beside one slab, passing a corner, or an exit before the entry of another slab is not covered',
    'files': ['aabb2.h', 'aabb3.h', 'impl/aabb2.h', 'impl/aabb3.h'],
    'mech': [('hits, intersects', 'impl/aabb3.h'), ('hits, intersects', 'impl/aabb2.h')],
}
u = Unit('P14', META['title'])
HUGE = N('huge', 'max')


# The parameters at which the line of the ray meets the two planes of a slab are named p? and q?, so that the corners
# are inf = start + direction * p and sup = start + direction * q on every axis that is not parallel to its slab; each
# combination of parallel axes is an obligation of its own.
def slabs(v, s, d, lo, hi, par):
    enter, leave, free, pre = -HUGE, HUGE, T, T
    for c, a, e, l, h, z in zip('xyz', s, d, lo, hi, par):
        pre = pre & (l <= h)
        if z:
            pre = pre & e.eq(0)
            free = free & (a >= l) & (a <= h)
        else:
            p, r = v.arg('p' + c), v.arg('q' + c)
            pre = pre & e.ne(0) & l.eq(a + e * p) & h.eq(a + e * r)
            enter = vmax(enter, vmin(p, r))
            leave = vmin(leave, vmax(p, r))
    return pre, enter, leave, free


for n in (2, 3):
    b, p, ln, ry = 'B%d' % n, 'V%d' % n, 'L%d' % n, 'R%d' % n
    vec = (lambda v, o, base='', out=False, n=n: (v.v2 if n == 2 else v.v3)(o, base, out=out))

    def common(v, kind, par, vec=vec):
        lo, hi = vec(v, 'b', 'inf'), vec(v, 'b', 'sup')
        s = vec(v, 'l', 'start')
        d = vec(v, 'l', 'direction') if kind == 'ray' else vec(v, 'l', 'end') - s
        return slabs(v, s, d, lo, hi, par)

    def meets(v, kind, par, part, common=common):
        pre, enter, leave, free = common(v, kind, par)
        t1 = vmax(q(0), enter)
        t2 = vmin(q(1), leave) if kind == 'line' else leave
        r = free & (t1 <= t2)
        if part == 'r':
            return dict(pre=pre, claims=[Eq('intersects', v.ret, r)])
        return dict(pre=pre & r, claims=[Eq(part, v.cell(part, '', 'out'), t1 if part == 't1' else t2)])

    def enters(v, kind, par, part, common=common):
        pre, enter, leave, free = common(v, kind, par)
        r = free & (enter >= 0) & (enter <= leave)
        if kind == 'line':
            r = r & (enter <= 1)
        if part == 'r':
            return dict(pre=pre, claims=[Eq('hits', v.ret, r)])
        return dict(pre=pre & r, claims=[Eq('t', v.cell('t', '', 'out'), enter)])

    aux = ' '.join('%s%s:R' % (a, c) for c in 'xyz'[:n] for a in 'pq')
    for kind, ty in (('ray', ry), ('line', ln)):
        fi = u.fn('%s_intersects_%s' % (b, kind), 'b:c%s l:c%s t1:R& t2:R& %s' % (b, ty, aux), 'return b.intersects(t1, t2, l);', 'bool')
        fh = u.fn('%s_hits_%s' % (b, kind), 'b:c%s l:c%s t:R& %s' % (b, ty, aux), 'return b.hits(t, l);', 'bool')
        for par in itertools.product((0, 1), repeat=n):
            if all(par):
                continue
            nm = ''.join(c for c, z in zip('xyz', par) if z)
            nm = '_parallel_' + nm if nm else ''
            for part in ('r', 't1', 't2'):
                u.ob('%s_intersects_%s_%s%s' % (b, kind, part, nm), fi, lambda v, kind=kind, par=par, part=part, meets=meets: meets(v, kind, par, part), budget=400000)
            for part in ('r', 't'):
                u.ob('%s_hits_%s_%s%s' % (b, kind, part, nm), fh, lambda v, kind=kind, par=par, part=part, enters=enters: enters(v, kind, par, part), budget=400000)


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
