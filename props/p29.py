from apilib import *

META = {
    'title': 'Element access, storage layout and conversion between float and double',
    'statement': 'data() gives the components of an object as one gapless array of Real in declaration order (matrices column by column, the translation of a Mat34 last, the distance or radius last), for reading and for writing; operator[] with a coordinate reads and refers to the component (column) of that name and to no other; objects made of numbers alone have no padding, so arrays of them are arrays of Real. cast<float> and cast<double> convert every component to the other precision, each into its own place and through no narrower type; rays keep the same unit direction.',
    'forall': 'every class with data(), operator[] or cast, every index, every value, float and double, both directions of conversion',
    'why': 'the tests read a few elements of constants in which most elements are equal (identity, zero), write through data() hardly ever, and cast only integers',
    'files': ['vec2.h', 'vec3.h', 'vec4.h', 'quat.h', 'mat2.h', 'mat3.h', 'mat34.h', 'mat4.h', 'plane.h', 'sphere.h', 'circle.h', 'aabb2.h', 'aabb3.h', 'caabb2.h', 'caabb3.h', 'line2.h', 'line3.h', 'ray2.h', 'ray3.h', 'frustum.h', 'tri2.h', 'colorrgb.h', 'colorrgba.h', 'colorhsv.h'],
    'mech': [('data', 'impl/mat3.h'), ('operator[]', 'impl/mat4.h'), ('cast', 'impl/frustum.h')],
}
u = Unit('P29', META['title'])
u.types['TR'] = ('mathlib::Tri2<T>', [p + '.' + c for p in 'abc' for c in 'xy'])
u.prelude += 'template <class T> struct OtherReal; template <> struct OtherReal<float> { typedef double Type; }; template <> struct OtherReal<double> { typedef float Type; };\n'
NAME = {v: k for k, v in CODE.items()}
DATA = ['V2', 'V3', 'V4', 'Q', 'M2', 'M3', 'M34', 'M4', 'PL', 'SP', 'CI', 'RGB', 'RGBA', 'HSV']
PLAIN = ['V2', 'V3', 'V4', 'Q', 'L2', 'L3', 'R2', 'R3', 'PL', 'CI', 'SP', 'B2', 'B3', 'CB2', 'CB3', 'RGB', 'RGBA', 'HSV', 'TR', 'HS', 'BZ', 'FR']
CAST = [c for c in PLAIN if c not in ('HS', 'BZ')] + ['M2', 'M3', 'M34', 'M4']
for c in CAST:
    cpp, leaves = u.types[c]
    u.types['x' + c] = (cpp.replace('<T>', '<typename OtherReal<T>::Type>').replace('typename ', ''), leaves)


def only(t, leaf, val):
    """leaf is val, every other component is unchanged"""
    def spec(v):
        return [Eq(l, v.cell('m', l, 'out'), val(v) if l == leaf else v.cell('m', l, 'in'), ('m', l)) for l in u.types[t][1]]
    return spec


for t in DATA:
    leaves = u.types[t][1]
    for i, l in enumerate(leaves):
        rd = lambda v, l=l: [Eq('element', v.ret, v.cell('m', l, 'in'))]
        u.check('%s_data_%d_const' % (t, i), 'm:c%s' % t, 'return m.data()[%d];' % i, rd, 'R')
        u.check('%s_data_%d' % (t, i), 'm:%s' % t, 'return m.data()[%d];' % i, rd, 'R')
        u.check('%s_data_%d_write' % (t, i), 'm:%s k:R' % t, 'm.data()[%d] = k;' % i, only(t, l, lambda v: v.arg('k')))
for t in ('V2', 'V3'):
    for i, c in enumerate('XYZ'[:int(t[1])]):
        l = c.lower()
        u.check('%s_at_%s_const' % (t, c), 'm:c%s' % t, 'return m[mathlib::Coord::%s];' % c, lambda v, l=l: [Eq('element', v.ret, v.cell('m', l, 'in'))], 'R')
        u.check('%s_at_%s' % (t, c), 'm:%s' % t, 'return m[mathlib::Coord::%s];' % c, lambda v, l=l: [Eq('element', v.ret, v.cell('m', l, 'in'))], 'R')
        u.check('%s_at_%s_write' % (t, c), 'm:%s k:R' % t, 'm[mathlib::Coord::%s] = k;' % c, only(t, l, lambda v: v.arg('k')))
for t, n, pre in (('M34', 3, 'rs.'), ('M4', 4, '')):
    vt = 'V%d' % n
    names = 'xyzw'[:n]
    for c in 'XYZ':
        b = pre + c.lower()
        rd = lambda v, b=b, names=names: [Eq(k, v.cell('o', k, 'out'), v.cell('m', b + '.' + k, 'in'), ('o', k)) for k in names]
        u.check('%s_at_%s_const' % (t, c), 'm:c%s o:%s' % (t, vt), 'o = m[mathlib::Coord::%s];' % c, rd)
        u.check('%s_at_%s' % (t, c), 'm:%s o:%s' % (t, vt), 'o = m[mathlib::Coord::%s];' % c, rd)
        u.check('%s_at_%s_write' % (t, c), 'm:%s o:c%s' % (t, vt), 'm[mathlib::Coord::%s] = o;' % c,
                lambda v, b=b, t=t, names=names: [Eq(l, v.cell('m', l, 'out'), v.cell('o', l[-1], 'in') if l.rpartition('.')[0] == b and l[-1] in names else v.cell('m', l, 'in'), ('m', l)) for l in u.types[t][1]])
for t in PLAIN:
    leaves = u.types[t][1]
    body = 'return sizeof(%s) == %d * sizeof(R)%s;' % (t, len(leaves), ''.join(' && __builtin_offsetof(%s, %s) == %d * sizeof(R)' % (t, l, i) for i, l in enumerate(leaves)))
    u.check(t + '_layout', 'm:c%s' % t, body, lambda v: [Holds('the components are a gapless array of Real', v.ret)], 'bool')
for t in ('M2', 'M3', 'M34', 'M4'):
    leaves = u.types[t][1]
    body = 'return %s;' % ' && '.join('__builtin_offsetof(%s, %s) == __builtin_offsetof(%s, %s) + %d * sizeof(R)' % (t, l, t, leaves[0], i) for i, l in enumerate(leaves))
    u.check(t + '_layout', 'm:c%s' % t, body, lambda v: [Holds('the elements are a gapless array of Real', v.ret)], 'bool')


def cast_spec(t, out):
    """out: conversion from Real to the other type (from the double instance: to float)"""
    def spec(v):
        narrow = out and v._s.sfx == 'd'
        cv = lambda x: tr32(x) if narrow else x
        ls = u.types[t][1]
        ray = t in ('R2', 'R3')
        r = [Eq(l, v.cell('o', l, 'out'), cv(v.cell('m', l, 'in')), ('o', l)) for l in ls if not (ray and l.startswith('direction'))]
        if not ray:
            return r
        ax = 'xyz'[:int(t[1])]
        e = Vn(v.cell('m', 'direction.' + k, 'in') for k in ax)
        g = Vn(v.cell('o', 'direction.' + k, 'out') for k in ax)
        if narrow:
            f = Vn(cv(x) for x in e)
            turn = [cross2(g, f)] if len(ax) == 2 else list(cross(g, f))
            return dict(pre=dot(f, f).ne(0) & (tr32(sqrt(dot(f, f))) > 0), claims=r + [Eq('parallel %d' % i, x, q(0)) for i, x in enumerate(turn)] + [Holds('same sense', dot(g, f) > 0)])
        turn = [cross2(g, e)] if len(ax) == 2 else list(cross(g, e))
        return dict(pre=dot(e, e).eq(1), claims=r + [Eq('parallel %d' % i, x, q(0)) for i, x in enumerate(turn)] + [Holds('same sense', dot(g, e) > 0), Eq('length', dot(g, g), q(1))])
    return spec


for t in CAST:
    u.check(t + '_cast_out', 'm:c%s o:x%s' % (t, t), 'o = m.template cast<OtherReal<R>::Type>();', cast_spec(t, True))
    u.check(t + '_cast_same', 'm:c%s o:%s' % (t, t), 'o = m.template cast<R>();', cast_spec(t, None))
    u.check(t + '_cast_in', 'm:cx%s o:%s' % (t, t), 'o = m.template cast<R>();', cast_spec(t, False))


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
