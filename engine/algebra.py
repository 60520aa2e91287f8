"""Specification-side vector/matrix/quaternion algebra over value-graph nodes."""
from vg import *


class Vn(tuple):
    def __add__(s, o):
        return Vn(a + b for a, b in zip(s, o))

    def __sub__(s, o):
        return Vn(a - b for a, b in zip(s, o))

    def __neg__(s):
        return Vn(-a for a in s)

    def __mul__(s, k):
        k = w(k)
        return Vn(a * k for a in s)

    __rmul__ = __mul__

    def __truediv__(s, k):
        return Vn(a / k for a in s)

    x = property(lambda s: s[0])
    y = property(lambda s: s[1])
    z = property(lambda s: s[2])
    w = property(lambda s: s[3])


def V(*a):
    return Vn(w(x) for x in a)


def dot(a, b):
    r = a[0] * b[0]
    for x, y in list(zip(a, b))[1:]:
        r = r + x * y
    return r


def cross(a, b):
    return V(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def cross2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def len2(a):
    return dot(a, a)


def length(a):
    return sqrt(dot(a, a))


def vite(c, a, b):
    return Vn(ite(c, x, y) for x, y in zip(a, b))


def unit(a, k=1):
    """a scaled to length k, the zero vector for the zero vector"""
    l = length(a)
    return vite(l.eq(0), V(*[0] * len(a)), Vn(x * k / l for x in a))


class Mn(tuple):
    """matrix as a tuple of rows"""

    def __mul__(s, o):
        if isinstance(o, Mn):
            return Mn(Vn(dot(r, [q[j] for q in o]) for j in range(len(o[0]))) for r in s)
        if isinstance(o, Vn):
            return Vn(dot(r, o) for r in s)
        return Mn(Vn(x * w(o) for x in r) for r in s)

    def t(s):
        return Mn(Vn(r[j] for r in s) for j in range(len(s[0])))

    def __add__(s, o):
        return Mn(a + b for a, b in zip(s, o))

    def __sub__(s, o):
        return Mn(a - b for a, b in zip(s, o))

    def cols(s):
        return [Vn(r[j] for r in s) for j in range(len(s[0]))]


def M(rows):
    return Mn(Vn(w(x) for x in r) for r in rows)


def cols(*cs):
    return Mn(Vn(c[i] for c in cs) for i in range(len(cs[0])))


def eye(n):
    return M([[1 if i == j else 0 for j in range(n)] for i in range(n)])


def diag(v):
    return M([[v[i] if i == j else 0 for j in range(len(v))] for i in range(len(v))])


def mite(c, a, b):
    return Mn(vite(c, x, y) for x, y in zip(a, b))


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    r = None
    for j in range(n):
        mn = M([[m[i][k] for k in range(n) if k != j] for i in range(1, n)])
        t = m[0][j] * det(mn)
        if j % 2:
            t = -t
        r = t if r is None else r + t
    return r


def cof(m):
    n = len(m)
    return M([[(1 if (i + j) % 2 == 0 else -1) * det(M([[m[a][b] for b in range(n) if b != j] for a in range(n) if a != i]))
               for j in range(n)] for i in range(n)])


def adj(m):
    return cof(m).t()


def rot2(a):
    return M([[cos(a), -sin(a)], [sin(a), cos(a)]])


def rotx(a):
    return M([[1, 0, 0], [0, cos(a), -sin(a)], [0, sin(a), cos(a)]])


def roty(a):
    return M([[cos(a), 0, sin(a)], [0, 1, 0], [-sin(a), 0, cos(a)]])


def rotz(a):
    return M([[cos(a), -sin(a), 0], [sin(a), cos(a), 0], [0, 0, 1]])


ROT = {'X': rotx, 'Y': roty, 'Z': rotz}


def skew(u):
    return M([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])


def outer(u, v):
    return M([[a * b for b in v] for a in u])


def rodrigues(u, a):
    c, s = cos(a), sin(a)
    return eye(3) * c + skew(u) * s + outer(u, u) * (1 - c)


# quaternions as (x, y, z, w)
def qmul(a, b):
    va, vb = V(*a[:3]), V(*b[:3])
    v = va * b[3] + vb * a[3] + cross(va, vb)
    return V(v[0], v[1], v[2], a[3] * b[3] - dot(va, vb))


def qconj(a):
    return V(-a[0], -a[1], -a[2], a[3])


def qmat(q):
    x, y, z, ww = q
    return M([[1 - 2 * (y * y + z * z), 2 * (x * y - ww * z), 2 * (x * z + ww * y)],
              [2 * (x * y + ww * z), 1 - 2 * (x * x + z * z), 2 * (y * z - ww * x)],
              [2 * (x * z - ww * y), 2 * (y * z + ww * x), 1 - 2 * (x * x + y * y)]])
