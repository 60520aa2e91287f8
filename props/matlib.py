"""Shared wrappers for the matrix properties."""
from report import *

C = 'mathlib::Coord::'
TY = {2: 'M2', 3: 'M3', 4: 'M4'}
PREDS = ('isIdentity', 'isOrthonormal', 'isNormal', 'isOrthogonal', 'isInitialized')


def setup(u, types=('M2', 'M3', 'M34', 'M4')):
    for t in types:
        for p in PREDS:
            u.fn('%s_%s' % (p, t), 'm:c%s' % t, 'return m.%s();' % p, 'bool', api=t + '::' + p)
        if t == 'M34':
            u.fn('rsIdentity_M34', 'm:cM34', 'return m.rs.isIdentity();', 'bool')
        if t == 'M4':
            u.fn('isTrs_M4', 'm:cM4', 'return m.isTrs();', 'bool')
    for t in types:
        if t != 'M34':
            for e in ('normalError', 'orthogonalError', 'identityError'):
                u.fn('%s_%s' % (e, t), 'm:c%s' % t, 'return m.%s();' % e, 'R')


def mat(v, t, o, out=False):
    if t == 'M2':
        return v.m2(o, out=out)
    if t == 'M3':
        return v.m3(o, out=out)
    if t == 'M4':
        return v.m4(o, out=out)
    return v.m3(o, 'rs', out=out)


def ident(m):
    n = len(m)
    return all_(*[m[i][j].eq(1 if i == j else 0) for i in range(n) for j in range(n)])


def orthonormal(m):
    """columns are orthonormal"""
    c = m.cols()
    n = len(c)
    return all_(*[dot(c[i], c[j]).eq(1 if i == j else 0) for i in range(n) for j in range(i, n)])


def truthful_id(v, *objs):
    """precondition: a matrix that says it is the identity is the identity (flag tolerance idealised to 0)"""
    r = T
    for t, o in objs:
        m = mat(v, t, o)
        r = r & (~v.pred('rsIdentity_M34' if t == 'M34' else 'isIdentity_' + t, o) | ident(m))
    return r


def eqm(v, t, o, want, label=''):
    """exit entries of matrix object o equal want"""
    return v.eqm(label, mat(v, t, o, True), want, o, 'rs' if t == 'M34' else '')


def affine(v, o, out=False):
    """4x4 homogeneous matrix of a Mat34"""
    m = v.m3(o, 'rs', out=out)
    t = v.v3(o, 't', out=out)
    return Mn([Vn(list(m[i]) + [t[i]]) for i in range(3)] + [V(0, 0, 0, 1)])


def hom3(m, t=None):
    t = t or V(0, 0, 0)
    return Mn([Vn(list(m[i]) + [t[i]]) for i in range(3)] + [V(0, 0, 0, 1)])


def eq34(v, o, want4, label=''):
    r = v.eqm(label, v.m3(o, 'rs', out=True), Mn(Vn(want4[i][:3]) for i in range(3)), o, 'rs')
    return r + v.eqv((label + '.' if label else '') + 't', v.v3(o, 't', out=True), Vn(want4[i][3] for i in range(3)), o, 't')
