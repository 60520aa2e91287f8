from matlib import *

META = {
    'title': 'Matrices transform vectors and points linearly',
    'statement': 'Mat2, Mat3, Mat34 and Mat4 map a vector to the linear (or affine) combination of their columns that they denote: M*v = x*v.x + y*v.y + z*v.z (+ t for points), vectors transformed without translation ignore t, row-vector products v*M give the dot products with the columns, and all overloads (operator, reference, array, strided array) give the same values, writing exactly the destination elements. Transformation is linear in the vector, and transforming by a product equals transforming twice.',
    'forall': 'every matrix (whatever its cached flags), every vector, float and double; array forms for counts up to 9 with packed and padded strides',
    'why': 'tests multiply a few integer matrices by a few vectors; a transposed index or a dropped translation on one overload or one element is not exercised for all matrices',
    'files': ['mat2.h', 'mat3.h', 'mat34.h', 'mat4.h', 'impl/mat2.h', 'impl/mat3.h', 'impl/mat34.h', 'impl/mat4.h', 'impl/vec2.h', 'impl/vec3.h'],
    'mech': [('transform/operator*(Vec)', 'impl/mat3.h'), ('transform/transformVector', 'impl/mat4.h'), ('transform', 'impl/mat34.h')],
}
u = Unit('P05', META['title'])
setup(u)


def vec(v, t, o, out=False):
    return {'V2': v.v2, 'V3': v.v3, 'V4': v.v4}[t](o, out=out)


def point(m4, p):
    """affine image of a point under a 4x4 matrix, upper three rows"""
    return Vn(dot(m4[i][:3], p) + m4[i][3] for i in range(3))


def lin(m4, p):
    return Vn(dot(m4[i][:3], p) for i in range(3))


CASES = [   # (matrix type, vector type, method, image)
    ('M2', 'V2', 'transform', lambda v, p: v.m2('m') * p),
    ('M3', 'V3', 'transform', lambda v, p: v.m3('m') * p),
    ('M34', 'V3', 'transform', lambda v, p: point(affine(v, 'm'), p)),
    ('M4', 'V3', 'transform', lambda v, p: point(v.m4('m'), p)),
    ('M4', 'V4', 'transform', lambda v, p: v.m4('m') * p),
    ('M4', 'V3', 'transformVector', lambda v, p: lin(v.m4('m'), p)),
    ('M4', 'V4', 'transformVector', lambda v, p: Vn(dot(v.m4('m')[i][:3], p[:3]) for i in range(4))),
]
for mt, vt, meth, im in CASES:
    nm = '%s_%s_%s' % (mt, meth, vt)
    u.check(nm, 'm:c%s d:%s s:c%s' % (mt, vt, vt), 'm.%s(d, s);' % meth,
            lambda v, vt=vt, im=im: v.eqv('', vec(v, vt, 'd', True), im(v, vec(v, vt, 's')), 'd'))
    if meth == 'transform':
        u.check(nm + '_op', 'm:c%s d:%s s:c%s' % (mt, vt, vt), 'd = m * s;',
                lambda v, vt=vt, im=im: v.eqv('', vec(v, vt, 'd', True), im(v, vec(v, vt, 's')), 'd'))

    # array forms: up to nine destinations and sources (an unrolled loop has a tail), and an untouched one beyond the count
    for n in (0, 1, 2, 3, 4, 5, 7, 9):
        k = n + 1
        def arr(v, vt=vt, im=im, n=n):
            r = []
            for i in range(n + 1):
                d, s = 'd%d' % i, 's%d' % i
                want = im(v, vec(v, vt, s)) if i < n else vec(v, vt, d)
                r += v.eqv('element %d' % i, vec(v, vt, d, True), want, d)
            return r
        each = lambda t: ' '.join(t.replace('#', str(i)) for i in range(k))
        pre = '%s da[%d], sa[%d]; ' % (vt, k, k) + each('da[#]=d#; sa[#]=s#;') + ' '
        post = each(' d#=da[#];')
        par = 'm:c%s ' % mt + ' '.join('d%d:%s s%d:c%s' % (i, vt, i, vt) for i in range(k))
        u.check('%s_array%d' % (nm, n), par, pre + 'm.%s(da, sa, %d);' % (meth, n) + post, arr)
        pre2 = 'struct E { %s v; T pad[3]; }; struct F { T k; %s v; }; E da[%d]; F sa[%d]; ' % (vt, vt, k, k) + each('da[#].v=d#; sa[#].v=s#;') + ' '
        post2 = each(' d#=da[#].v;')
        u.check('%s_strided%d' % (nm, n), par, pre2 + 'm.%s(&da[0].v, &sa[0].v, %d, sizeof(E), sizeof(F));' % (meth, n) + post2, arr)

for n in (2, 3):
    M_, V_ = 'M%d' % n, 'V%d' % n
    want = lambda v, n=n, V_=V_: Vn(dot(vec(v, V_, 'a'), c) for c in mat(v, 'M%d' % n, 'm').cols())
    u.check('%s_rowmul' % V_, 'a:c%s m:c%s o:%s' % (V_, M_, V_), 'o = a * m;', lambda v, want=want, V_=V_: v.eqv('', vec(v, V_, 'o', True), want(v), 'o'))
    u.check('%s_rowmul_assign' % V_, 'a:%s m:c%s' % (V_, M_), 'a *= m;', lambda v, want=want, V_=V_: v.eqv('', vec(v, V_, 'a', True), want(v), 'a'))
    # v*M is the transpose applied from the left
    u.check('%s_rowmul_transposed' % V_, 'a:c%s m:c%s o:%s' % (V_, M_, V_), 'o = m.transposed() * a;', lambda v, want=want, V_=V_: v.eqv('', vec(v, V_, 'o', True), want(v), 'o'))

# linearity / affinity
for mt, vt in (('M2', 'V2'), ('M3', 'V3'), ('M4', 'V4')):
    u.check('%s_linear' % mt, 'm:c%s a:c%s b:c%s k:R o:%s' % (mt, vt, vt, vt), 'o = m * (a * k + b) - ((m * a) * k + m * b);',
            lambda v, vt=vt: v.eqv('', vec(v, vt, 'o', True), Vn(q(0) for _ in vec(v, vt, 'a')), 'o'))
u.check('M34_affine', 'm:cM34 a:cV3 b:cV3 k:R o:V3', 'o = m * (a * k + b * (T(1) - k)) - ((m * a) * k + (m * b) * (T(1) - k));',
        lambda v: v.eqv('', v.v3('o', out=True), V(0, 0, 0), 'o'))
# composition law
for mt, vt in (('M2', 'V2'), ('M3', 'V3'), ('M4', 'V4'), ('M34', 'V3')):
    def comp(v, mt=mt, vt=vt):
        pre = truthful_id(v, (mt, 'm'), (mt, 'n'))
        return {'pre': pre, 'claims': v.eqv('', vec(v, vt, 'o', True), Vn(q(0) for _ in vec(v, vt, 'a')), 'o')}
    u.check('%s_compose' % mt, 'm:c%s n:c%s a:c%s o:%s' % (mt, mt, vt, vt), 'o = (m * n) * a - m * (n * a);', comp)


COUNT = 70001


def long_arrays(unit):
    """The array forms with a count no unrolling reaches: the destination stores (address recurrences of the current
    code) are exactly the components of the count elements."""
    import scev
    from unit import CLANG, OPT, INC
    size = {'V2': 2, 'V3': 3, 'V4': 4}
    forms, src = [], ['#include "mathlib.h"']
    for mt, vt, meth, im in CASES:
        for real, w in (('float', 4), ('double', 8)):
            cm, cv = (unit.types[t][0].replace('<T>', '<%s>' % real) for t in (mt, vt))
            for strided in (False, True):
                name = 'f%d' % len(forms)
                step = size[vt] * w + (3 * w if strided else 0)
                extra = ', %d, %d' % (step, step + w) if strided else ''
                src.append('extern "C" void %s(const %s& m, %s* d, const %s* s) { m.%s(d, s, %d%s); }' % (name, cm, cv, cv, meth, COUNT, extra))
                forms.append((name, '%s::%s(%s*, count%s)' % (cm, meth, cv, ', strides' if strided else ''), size[vt], w, step))
    acc = scev.accesses(src, [f[0] for f in forms], 'd', INC, CLANG, OPT)
    rd = scev.accesses(src, [f[0] for f in forms], 's', INC, CLANG, OPT)
    if acc is None or rd is None:
        raise AnalysisError('the array forms do not compile')
    viol, n = [], 0
    und = unit.rule_undecided = getattr(unit, 'rule_undecided', [])
    for name, label, comps, w, step in forms:
        def bad(text):
            viol.append({'key': 'long_arrays/' + label, 'inst': 'float' if w == 4 else 'double', 'where': label,
                         'text': 'VIOLATED an array of %d elements is transformed element by element: %s: %s' % (COUNT, label, text)})
        if not acc[name]['returns']:
            n += 1
            bad('the loop over the elements has no exit that can be reached')
            continue
        for kind, a, st in (('store', acc[name], step), ('load', rd[name], step + (w if 'strides' in label else 0))):
            verb = 'written' if kind == 'store' else 'read'
            hidden = a['other'] + ['a %s through %s' % (kind, t) for k, t in a['foreign'] if k == kind and (kind == 'store' or '%m' not in t)]
            got, may, whole = scev.covered(a[kind], w)
            hidden += ['the rounds of a %s are not known' % kind] * (not whole)
            want = {i * st + c * w for i in range(COUNT) for c in range(comps)}
            if kind == 'load':      # a component that does not matter (w of a direction) is read of no element
                seen = {x % st for x in got | may}
                want = {i * st + c * w for i in range(COUNT) for c in range(comps) if c * w in seen}
            if (hidden or not a[kind]) and kind == 'store' or (want - got) and (hidden or not a[kind]):
                und.append('long_arrays %s: %s' % (label, hidden[0] if hidden else 'no %s of a component' % kind))
            elif may - (got & want):
                und.append('long_arrays %s: a %s depends on a condition the recurrences do not settle' % (label, kind))
            elif got != want:
                n += 1
                miss, more = sorted(want - got), sorted(got - want)
                bad(('element %d is not %s' % (miss[0] // st, verb)) if miss else 'byte %d is %s' % (more[0], verb))
            else:
                n += 1
    return n or 1, viol, 'destination and source recurrences of %d array forms at count %d' % (len(forms), COUNT)


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '', extra_rules=(long_arrays,))
