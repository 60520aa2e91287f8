"""Shared helpers of the box properties."""
from report import *


def fold(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = Vn(f(a, b) for a, b in zip(r, x))
    return r


def vvmin(xs):
    return fold(vmin, xs)


def vvmax(xs):
    return fold(vmax, xs)


def inside(x, lo, hi):
    return all_(*[(a >= l) & (a <= h) for a, l, h in zip(x, lo, hi)])


def vecs(n):
    return lambda v, o, base='', out=False: (v.v2 if n == 2 else v.v3)(o, base, out=out)


def long_arrays(n, p):
    """longer arrays: every element but one is the same constant; (name, count, index of the symbolic one, code)"""
    c = '%s(%s)' % (p, ', '.join('R(%d)' % (1 + i) for i in range(n)))
    for k in (5, 6, 7, 8, 9, 13):
        for j in (range(k) if k in (9, 13) else (0, k - 2, k - 1)):
            xs = ', '.join('x' if i == j else c for i in range(k))
            ss = ', '.join('{x, 0}' if i == j else '{%s, 0}' % c for i in range(k))
            yield 'long_%d_%d' % (k, j), k, j, '%s a[%d] = {%s}; o.set(%d, a);' % (p, k, xs, k)
            if k != 9:
                yield 'long_%d_%d_stride' % (k, j), k, j, 'Rec<%s> a[%d] = {%s}; o.set(%d, &a[0].v, (int)sizeof(a[0]));' % (p, k, ss, k)


def point_checks(u, T_, n, p, b, is_box):
    """boxes of up to four points, packed and strided; is_box(v, obj, lo, hi) states the result"""
    vec = vecs(n)
    for k in (1, 2, 3, 4):
        nms = 'xyzw'[:k]
        ps = ' '.join('%s:c%s' % (c, p) for c in nms)
        arr = '%s a[%d] = {%s};' % (p, k, ', '.join(nms))
        rec = 'Rec<%s> a[%d] = {%s};' % (p, k, ', '.join('{%s, 0}' % c for c in nms))
        for nm, pre, args in (('', arr, '%d, a' % k), ('_stride', rec, '%d, &a[0].v, (int)sizeof(a[0])' % k)):
            for f, body in (('set', 'o.set(%s);' % args), ('from', 'o = %s::from(%s);' % (b, args))):
                fo = u.fn(T_('%s_%d_points%s' % (f, k, nm)), ps + ' o:%s' % b, pre + ' ' + body)
                spec = lambda v, nms=nms: is_box(v, 'o', vvmin([vec(v, c) for c in nms]), vvmax([vec(v, c) for c in nms]))
                if k > 2:
                    # one obligation per coordinate keeps the partition small
                    for i in range(2 * n):
                        u.ob(T_('%s_%d_points%s_%d' % (f, k, nm, i)), fo, lambda v, spec=spec, i=i: [spec(v)[i]])
                else:
                    u.ob(T_('%s_%d_points%s' % (f, k, nm)), fo, spec)
    for nm, k, j, body in long_arrays(n, p):
        u.check(T_('set_%s' % nm), 'x:c%s o:%s' % (p, b), body, lambda v: is_box(v, 'o', vvmin([Vn(1 + i for i in range(n)), vec(v, 'x')]), vvmax([Vn(1 + i for i in range(n)), vec(v, 'x')])))
    u.check(T_('same_points_strided'), 'x:c%s y:c%s o:%s' % (p, p, b), '%s a[4] = {x, y, y, x}; o.set(2, a, (int)(2 * sizeof(a[0])));' % p, lambda v: is_box(v, 'o', vvmin([vec(v, 'x'), vec(v, 'y')]), vvmax([vec(v, 'x'), vec(v, 'y')])))


PRELUDE = 'template <class V> struct Rec { V v; int tag; };\n'
