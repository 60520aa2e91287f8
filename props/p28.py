import re
from apilib import *
from matlib import setup as matsetup

META = {
    'title': 'All forms of an operation give the same result',
    'statement': 'Where the library offers one operation in several forms, they agree on every number they produce: the copying form and the in-place form (normalized and normalize, rotatedPre and rotatePre, inversed and invert, ...), the binary operator and its compound assignment, a constructor or static from... function and the setter with the same parameters, static multiply and operator*, operator!= and the negation of operator==, a cast to the same type and a plain copy, and the const and the non-const accessor. (Matrices say truthfully whether they are the identity or orthonormal; rays and planes have unit directions and normals.)',
    'forall': 'every pair of forms with the same parameters, every input value, float and double',
    'why': 'each form is written out separately in most classes, and a test usually exercises one of them',
    'files': ['vec2.h', 'vec3.h', 'vec4.h', 'quat.h', 'mat2.h', 'mat3.h', 'mat34.h', 'mat4.h', 'plane.h', 'sphere.h', 'circle.h', 'aabb2.h', 'aabb3.h', 'caabb2.h', 'caabb3.h', 'colorrgb.h', 'colorrgba.h', 'colorhsv.h', 'spline3.h'],
    'mech': [('compound assignment and binary operators', 'impl/vec3.h'), ('copying and in-place forms', 'impl/mat3.h'), ('from and set', 'impl/aabb3.h')],
}
u = Unit('P28', META['title'])
INPLACE = {'normalized': 'normalize', 'rotated': 'rotate', 'rotatedPre': 'rotatePre', 'mirrored': 'mirror', 'rotated90': 'rotate90', 'rotated180': 'rotate180', 'rotated270': 'rotate270', 'scaled': 'scale', 'scaledPre': 'scalePre',
           'translated': 'translate', 'translatedPre': 'translatePre', 'transformed': 'transform', 'transformedPre': 'transformPre', 'transposed': 'transpose', 'inversed': 'invert', 'flipped': 'flip', 'moved': 'move'}
for op in '+-*/%':
    INPLACE['operator' + op] = 'operator' + op + '='
SETTER = {'from': 'set', 'fromAngle': 'setAngle', 'fromClerp': 'clerp', 'fromClerpMaxAngle': 'clerpMaxAngle', 'fromSlerp': 'slerp', 'fromSlerpMaxAngle': 'slerpMaxAngle', 'fromSlerpNoInvert': 'slerpNoInvert', 'fromLerp': 'lerp',
          'fromInterp': 'interp', 'fromPointAndTangents': 'setFromPointAndTangents'}
pairs = []


def same_cells(v, got, want, pre=None):
    s = v._s
    a, b = s.objs[got], s.objs[want]
    ma, mb = s.mem.get(a, {}), s.mem.get(b, {})
    r = []
    for off in sorted(set(ma) | set(mb) | set(a.layout)):
        if off not in a.layout:
            continue          # cached flags: their truth is property P08
        nm = a.layout.get(off, ('%s+%d' % (got, off), None))[0]
        x = ma[off][1] if off in ma else (var(nm) if off in a.layout else N('ivar', nm, 32))
        nb = b.layout.get(off, ('%s+%d' % (want, off), None))[0]
        y = mb[off][1] if off in mb else (var(nb) if off in b.layout else N('ivar', nb, 32))
        if x is UNDEF and y is UNDEF:
            continue
        zero = lambda e: q(0) if off in a.layout and e.k == 'ic' and e.a[0] == 0 else e
        r.append(Eq(nm[len(got):].lstrip('.') + ' of both forms', zero(x), zero(y), (got, nm[len(got) + 1:]) if off in a.layout else None))
    dom = {}
    for c in r:
        flags_of(c.got, dom)
        flags_of(c.want, dom)
    d = dict(claims=r or [Holds('neither form writes anything', T)], domains=dom)
    if pre is not None:
        d['pre'] = pre
        flags_of(pre, dom)
    return d


def flags_of(e, dom):
    st, seen = [e], set()
    while st:
        n = st.pop()
        if not isinstance(n, N) or n.id in seen:
            continue
        seen.add(n.id)
        if n.k == 'ivar' and '+' in n.a[0]:
            dom[n.a[0]] = 5
        st += n.a


def pair(name, cls, ps, one, two):
    ps = ' '.join(ps).split()
    mats = [p.split(':') for p in ps if re.match(r'c?M\d+$', p.split(':')[1])]
    unitv = None
    if name.startswith('Plane_ctor_set') and 'p0:cV3' in ps and 'p1:R' in ps:
        unitv = ('p0', '', 'xyz')
    elif name.startswith('Ray') and 'cast' in name:
        unitv = ('self', 'direction', 'xyz'[:int(cls[-1])])

    def spec(v):
        pre = T
        for n, t in mats:
            t = t.lstrip('c')
            pre = pre & truthful_id(v, (t, n))
            if 'inversed' in name and t not in ('M34', 'M2'):
                m = mat(v, t, n)
                claimed = v.pred('isOrthonormal_' + t, n)
                if t == 'M3':        # claimed orthonormal: one form transposes, the other divides by the determinant; that both are the inverse is P07
                    pre = pre & ~claimed
                if t == 'M4':
                    w = m[3]
                    pre = pre & (~v.pred('isTrs_M4', n) | (w[0].eq(0) & w[1].eq(0) & w[2].eq(0) & w[3].eq(1)))
        if '_div_' in name and 'p0:R' in ps:
            pre = pre & v.arg('p0').ne(0)
        if unitv:
            x = (v.v3 if len(unitv[2]) == 3 else v.v2)(unitv[0], unitv[1])
            pre = pre & dot(x, x).eq(1)
        return same_cells(v, 'o', 'r', pre if pre is not T else None)
    u.check(name, ' '.join(['o:' + CODE[cls], 'r:' + CODE[cls]] + ps), one + ' ' + two, spec)


def setup():
    prepare(u)
    matsetup(u)
    ops = operations()
    by = {}
    for x in ops:
        by.setdefault((x[0]['class'], x[0]['name'] if x[4] != 'ctor' else '#ctor'), []).append(x)
    sig = lambda o: [p[1] for p in o['params']]
    names = {}

    def uniq(n):
        n = re.sub(r'\W+', '_', n)
        names[n] = names.get(n, 0) + 1
        return n if names[n] == 1 else '%s_v%d' % (n, names[n])
    for (cls, nm), l in by.items():
        if not cls or cls not in CODE:
            continue
        for o, n0, recv, call, kind, rc in l:
            if nm in INPLACE and o['const'] and kind == 'class' and rc == cls:
                for p in by.get((cls, INPLACE[nm]), []):
                    if p[0]['const'] or sig(p[0]) != sig(o):
                        continue
                    for d, a, t in arguments(o) or []:
                        ps = ['self:c' + CODE[cls]] + ([d] if d else [])
                        pair(uniq(n0 + '_inplace' + ('_' + t if t else '')), cls, ps, 'o = %s;' % (call % a), 'r = self; r.%s(%s);' % (p[0]['name'], a))
            if nm in SETTER and o['static'] and rc == cls or kind == 'ctor':
                for p in by.get((cls, SETTER.get(nm, 'set')), []):
                    if p[0]['const'] or p[0]['static'] or sig(p[0]) != sig(o) or not o['params']:
                        continue
                    if cls.startswith('Mat') and sig(o) == ['Real']:
                        continue          # Mat2(k) is k times the identity, Mat2::set(angle) a rotation
                    for d, a, t in arguments(o) or []:
                        pair(uniq(n0 + '_set' + ('_' + t if t else '')), cls, [d] if d else [], 'o = %s;' % (call % a), 'mathlib::%s<R> q; q.%s(%s); r = q;' % (cls, p[0]['name'], a))
            if nm == 'cast' and rc == cls:
                pair(uniq(n0 + '_same'), cls, ['self:c' + CODE[cls]], 'o = %s;' % (call % ''), 'r = self;')
            if nm == 'copy' and rc == cls and not o['params']:
                pair(uniq(n0 + '_same'), cls, ['self:c' + CODE[cls]], 'o = %s;' % (call % ''), 'r = self;')
            if nm == 'multiply' and o['static'] and len(o['params']) == 3:
                c = ty(o['params'][0][1])[0]
                if c in CODE and all(ty(p[1])[0] == c for p in o['params']):
                    pair(uniq(n0 + '_operator'), c, ['a:c' + CODE[c], 'b:c' + CODE[c]], 'mathlib::%s<R>::multiply(o, a, b);' % cls, 'r = a * b;')
            if nm == 'operator!=':
                for p in by.get((cls, 'operator=='), []):
                    if sig(p[0]) == sig(o):
                        for d, a, t in arguments(o) or []:
                            u.check(uniq(n0 + '_not_eq'), ' '.join(['self:c' + CODE[cls]] + ([d] if d else [])), 'return (self != %s) == !(self == %s);' % (a, a), claim_true, 'bool')
            # const and non-const accessors
            if not o['const'] and not o['static'] and kind in ('Real&', 'Real*', 'class&'):
                for p in by.get((cls, nm), []):
                    if p[0]['const'] and sig(p[0]) == sig(o) and p[4].rstrip('&*') == kind.rstrip('&*'):
                        for d, a, t in arguments(o) or []:
                            f = 'self.%s(%s)' % (o['name'], a)
                            g = 'const_cast<const %s&>(self).%s(%s)' % (CODE[cls], o['name'], a)
                            st = '*' if kind == 'Real*' else ''
                            if kind == 'class&':
                                u.check(uniq(n0 + '_const' + ('_' + t if t else '')), 'o:%s r:%s self:%s' % (CODE[rc], CODE[rc], CODE[cls]) + (' ' + d if d else ''), 'o = %s; r = %s;' % (f, g), lambda v: same_cells(v, 'o', 'r'))
                            else:
                                u.check(uniq(n0 + '_const' + ('_' + t if t else '')), 'self:%s' % CODE[cls] + (' ' + d if d else ''), 'return %s%s - %s%s;' % (st, f, st, g), lambda v: [Eq('difference of the two accessors', v.ret, q(0))], 'R')


def claim_true(v):
    dom = {}
    flags_of(v.ret, dom)
    return dict(claims=[Holds('the two forms agree', v.ret)], domains=dom)


def run(tier, work, a):
    import report
    setup()
    if len(u.obs) < 150:
        raise AnalysisError('only %d pairs of forms found' % len(u.obs))
    return report.run(u, tier, work, a, '')
