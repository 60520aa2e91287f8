import itertools
import json
import os
import re
from matlib import *

META = {
    'title': 'Operands may be the object that is modified',
    'statement': 'Passing an object as an argument of one of its own modifying operations gives the same result as passing an equal, separate object: a *= a, q.slerp(q, p, t), m.rotate(m), box.add(box). The same holds for operations that write their result through a reference or pointer argument, such as m.transform(v, v) and the array transforms working in place.',
    'forall': 'every public operation with a modifying receiver or an output argument, every parameter of the type of the receiver or of the output, alone and together, and every value of the operands, float and double',
    'why': 'tests use separate objects; whether an argument is read after it has been overwritten depends on the order of statements in each of some hundred functions',
    'files': ['vec2.h', 'vec3.h', 'vec4.h', 'quat.h', 'mat2.h', 'mat3.h', 'mat34.h', 'mat4.h', 'aabb2.h', 'aabb3.h', 'caabb2.h', 'caabb3.h', 'circle.h', 'sphere.h', 'plane.h', 'line2.h', 'line3.h', 'ray2.h', 'ray3.h', 'colorrgb.h', 'colorrgba.h', 'colorhsv.h', 'spline3.h', 'tri2.h'],
    'mech': [('in-place operations', 'impl/mat3.h'), ('in-place operations', 'impl/quat.h')],
}
u = Unit('P24', META['title'])
u.lenient = True
CODE = {'Vec2': 'V2', 'Vec3': 'V3', 'Vec4': 'V4', 'Quat': 'Q', 'Mat2': 'M2', 'Mat3': 'M3', 'Mat34': 'M34', 'Mat4': 'M4', 'Line2': 'L2', 'Line3': 'L3', 'Ray2': 'R2', 'Ray3': 'R3',
        'Plane': 'PL', 'Circle': 'CI', 'Sphere': 'SP', 'AABB2': 'B2', 'AABB3': 'B3', 'CAABB2': 'CB2', 'CAABB3': 'CB3', 'ColorRGB': 'RGB', 'ColorRGBA': 'RGBA', 'ColorHSV': 'HSV',
        'HermiteSplineSegment3': 'HS', 'BezierSegment3': 'BZ'}
LONG = {v: 'mathlib::%s<R>' % k for k, v in CODE.items()}
API = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'api.json')))
SKIP = {}     # operations whose documentation (an assertion) excludes such operands
for o in API:
    if o['name'] == 'multiply' and o['static'] and o['class'] in ('Mat2', 'Mat3', 'Mat34', 'Mat4'):
        SKIP['%s::%s%s' % (o['class'], o['name'], [p[1] for p in o['params']])] = 'assert(&dest != &a && &dest != &b)'
skipped = []
names = {}


def ty(t):
    """(class, const, kind) of a parameter type; kind '' value, '&', '*'"""
    m = re.match(r'(const )?(\w+)(<Real>)? ?([&*]?)$', t)
    return (m.group(2), bool(m.group(1)), m.group(4)) if m else (None, False, '')


def other(i, p):
    """[(declaration, argument)] ways to pass an unrelated argument"""
    c, const, kind = ty(p[1])
    n = 'p%d' % i
    if c == 'Real' and kind == '':
        return [(n + ':R', n)]
    if c == 'Real' and kind == '&':
        return [(n + ':R&', n)]
    if c == 'int' and kind == '':
        return [(n + ':int', n)]
    if c == 'bool' and kind == '':
        return [(n + ':bool', n)]
    if c == 'Coord':
        return [('', 'mathlib::Coord::' + k) for k in 'XYZ']
    if c == 'Axis':
        return [('', 'mathlib::Axis::' + k) for k in ('X', 'NY', 'Z')]
    if c in CODE and kind == '&':
        return [('%s:%s%s' % (n, 'c' if const else '', CODE[c]), n)]
    if c == 'Tolerance':
        return [('', 'nullptr')]
    return None


def all_cells(v, got, want):
    """every number of two objects is the same on exit"""
    s = v._s
    a, b = s.objs[got], s.objs[want]
    ma, mb = s.mem.get(a, {}), s.mem.get(b, {})
    r = []
    for off in sorted(set(ma) | set(mb) | set(a.layout)):
        nm = a.layout.get(off, ('%s+%d' % (got, off), None))[0]
        x = ma[off][1] if off in ma else (var(nm) if off in a.layout else N('ivar', nm, 32))
        nb = b.layout.get(off, ('%s+%d' % (want, off), None))[0]
        y = mb[off][1] if off in mb else (var(nb) if off in b.layout else N('ivar', nb, 32))
        if x is UNDEF and y is UNDEF:
            continue
        zero = lambda e: q(0) if off in a.layout and e.k == 'ic' and e.a[0] == 0 else e
        r.append(Eq(nm + ' as with separate operands', zero(x), zero(y), (got, nm[len(got) + 1:]) if off in a.layout else None))
    dom = {}
    for c in r:
        for e in (c.got, c.want):
            int_vars(e, dom)
    return dict(claims=r, domains=dom)


def int_vars(e, dom):
    """flag words: their low bits take part"""
    st, seen = [e], set()
    while st:
        n = st.pop()
        if not isinstance(n, N) or n.id in seen:
            continue
        seen.add(n.id)
        if n.k == 'ivar' and '+' in n.a[0]:
            dom[n.a[0]] = 5
        st += n.a


def add(o, recv, alias, deep):
    """one obligation: parameters in alias (index -> path below the receiver / output) refer to the receiver"""
    ps = o['params']
    opts = []
    for i, p in enumerate(ps):
        if i in alias:
            opts.append([None])
        else:
            x = other(i, p)
            if x is None:
                skipped.append('%s::%s(%s)' % (o['class'], o['name'], p[1]))
                return
            opts.append(x)
    for k, combo in enumerate(itertools.product(*opts)):
        decl = [c[0] for c in combo if c and c[0]]
        a1, a2, copies = [], [], []
        for i, c in enumerate(combo):
            if c is not None:
                a1.append(c[1])
                a2.append(c[1])
                continue
            path, cls = alias[i]
            a1.append('o' + path)
            if deep == i:
                a2.append('r')
            else:
                copies.append('mathlib::%s<R> c%d(o%s);' % (cls, i, path))
                a2.append('c%d' % i)
        cls = recv
        call = 'o.%s(%s);' if deep is None else ('mathlib::%s<R>::%s(%%s);' % (o['class'], o['name']) if o['static'] else 'self.%s(%%s);' % o['name'])
        if deep is None:
            b1, b2 = 'o.%s(%s);' % (o['name'], ', '.join(a1)), 'r.%s(%s);' % (o['name'], ', '.join(a2))
        else:
            b1, b2 = call % ', '.join(a1), call % ', '.join(a2)
            if not o['static']:
                decl = ['self:c' + CODE[o['class']]] + decl
        nm = re.sub(r'\W+', '_', '%s_%s' % (o['class'], {'operator+=': 'add', 'operator-=': 'sub', 'operator*=': 'mul', 'operator/=': 'div', 'operator=': 'assign', 'operator%=': 'mod', 'operator^=': 'xor'}.get(o['name'], o['name'])))
        nm += '_' + '_'.join('%d%s' % (i, alias[i][0].replace('.', '') or 'self') for i in sorted(alias))
        names[nm] = names.get(nm, 0) + 1
        if names[nm] > 1:
            nm += '_v%d' % names[nm]
        u.check(nm, ' '.join(['o:' + CODE[cls], 'r:' + CODE[cls]] + decl), 'r = o; %s %s %s' % (' '.join(copies), b2, b1), lambda v: all_cells(v, 'o', 'r'))


for o in API:
    if o['kind'] != 'CXXMethodDecl' or o['access'] != 'public' or o['deleted'] or o['tmpl'] or o['class'] not in CODE or not o['params']:
        continue
    key = '%s::%s%s' % (o['class'], o['name'], [p[1] for p in o['params']])
    if key in SKIP:
        continue
    tys = [ty(p[1]) for p in o['params']]
    if not o['const'] and not o['static']:
        # parameters that may refer to the receiver
        spots = {}
        for i, (c, const, kind) in enumerate(tys):
            if const and kind == '&':
                l = [('', c)] if c == o['class'] else []
                if l:
                    spots[i] = l
        for i, l in spots.items():
            for x in l:
                add(o, o['class'], {i: x}, None)
        if len(spots) > 1:
            add(o, o['class'], {i: l[0] for i, l in spots.items()}, None)
    outs = [i for i, (c, const, kind) in enumerate(tys) if kind == '&' and not const and c in CODE]
    if (o['const'] or o['static']) and outs:
        for d in outs:
            c = tys[d][0]
            ins = {}
            for i, (k, const, kind) in enumerate(tys):
                if const and kind == '&':
                    l = [('', k)] if k == c else []
                    if l:
                        ins[i] = l
            for i, l in ins.items():
                for x in l:
                    add(o, c, {d: ('', c), i: x}, d)
            if len(ins) > 1:
                add(o, c, dict([(d, ('', c))] + [(i, l[0]) for i, l in ins.items()]), d)

# array transforms in place
for o in API:
    if o['kind'] != 'CXXMethodDecl' or o['access'] != 'public' or len(o['params']) < 3 or o['class'] not in CODE or not o['const']:
        continue
    t0, t1 = ty(o['params'][0][1]), ty(o['params'][1][1])
    if t0[2] == '*' and t1[2] == '*' and t0[0] == t1[0] and t0[0] in CODE:
        c = t0[0]
        if c not in u.types:
            pass
        n = len(o['params'])
        if n not in (3, 5):
            continue
        code = 'A' + c
        if code not in u.types:
            u.prelude += 'template <class T> struct VA%s { mathlib::%s<T> v[4]; };\n' % (c, c)
            u.types[code] = ('VA%s<T>' % c, ['v[%d].%s' % (i, k) for i in range(4) for k in 'xyzw'[:int(c[-1])]])
        for cnt in (1, 2, 3):
            if n == 3:
                calls = ['self.%s(o.v, o.v, %d);' % (o['name'], cnt), 'self.%s(r.v, o.v, %d);' % (o['name'], cnt)]
            else:
                st = 'sizeof(mathlib::%s<R>)' % c
                calls = ['self.%s(o.v, o.v, %d, %s, %s);' % (o['name'], cnt, st, st), 'self.%s(r.v, o.v, %d, %s, %s);' % (o['name'], cnt, st, st)]
            nm = '%s_%s_%s_array%d_%d' % (o['class'], o['name'], c, n, cnt)
            u.check(nm, 'self:c%s o:%s r:%s' % (CODE[o['class']], code, code), 'r = o; %s %s' % (calls[1], calls[0]), lambda v: all_cells(v, 'o', 'r'))


def run(tier, work, a):
    import report
    return report.run(u, tier, work, a, '')
