"""Shared specification of quaternion operations."""
from report import *


def raw(*xs):
    return V(*xs)


def qunit(a):
    """normalised quaternion, the identity for zero"""
    l = length(a)
    return vite(l.eq(0), V(0, 0, 0, 1), Vn(x / l for x in a))


def axisq(a, g):
    l = length(a)
    s = sin(g / 2) / l
    return vite(l.eq(0), V(0, 0, 0, 1), V(a[0] * s, a[1] * s, a[2] * s, cos(g / 2)))


def nlerp(a, b, k):
    return qunit(a + (b - a) * k)


def arc(a, b, d, k):
    """great-circle point at parameter k between a and b, whose scalar product is d"""
    th = fn('acos', d)
    return (a * sin(th * (1 - k)) + b * sin(th * k)) / sin(th)


def same_rotation(label, r, n, k=4):
    """r = n or r = -n, as equality of all products of two components"""
    return [Eq('%s %d%d' % (label, i, j), r[i] * r[j], n[i] * n[j]) for i in range(k) for j in range(i, k)]
