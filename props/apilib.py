"""entry points for every public operation of the library, generated from the declarations in the current sources"""
import itertools
import os
import re
import sys
from matlib import *
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import enum_api

CODE = {'Vec2': 'V2', 'Vec3': 'V3', 'Vec4': 'V4', 'Quat': 'Q', 'Mat2': 'M2', 'Mat3': 'M3', 'Mat34': 'M34', 'Mat4': 'M4', 'Line2': 'L2', 'Line3': 'L3', 'Ray2': 'R2', 'Ray3': 'R3',
        'Plane': 'PL', 'Circle': 'CI', 'Sphere': 'SP', 'AABB2': 'B2', 'AABB3': 'B3', 'CAABB2': 'CB2', 'CAABB3': 'CB3', 'ColorRGB': 'RGB', 'ColorRGBA': 'RGBA', 'ColorHSV': 'HSV',
        'HermiteSplineSegment3': 'HS', 'BezierSegment3': 'BZ', 'Frustum': 'FR', 'Tri2': 'TR', 'BezierSegment3FwdDiff': 'FD'}
TWO = {'Vec2', 'Mat2', 'Line2', 'Ray2', 'Circle', 'AABB2', 'CAABB2', 'Tri2'}
OPN = {'operator+=': 'adde', 'operator-=': 'sube', 'operator*=': 'mule', 'operator/=': 'dive', 'operator=': 'assign', 'operator%=': 'mode', 'operator^=': 'xore', 'operator+': 'add', 'operator-': 'sub', 'operator*': 'mul', 'operator/': 'div',
       'operator%': 'mod', 'operator^': 'xor', 'operator==': 'eq', 'operator!=': 'ne', 'operator[]': 'at', 'operator()': 'call', 'operator|': 'bor', 'operator|=': 'bore', 'operator&': 'band', 'operator~': 'inv', 'operator!': 'lnot',
       'operator<': 'lt', 'operator>': 'gt', 'operator<=': 'le', 'operator>=': 'ge'}


def prepare(u):
    u.lenient = True
    u.types['TR'] = ('mathlib::Tri2<T>', [p + '.' + c for p in 'abc' for c in 'xy'])
    u.types['FD'] = ('FDiff<T>', [])
    u.prelude += 'template <class T> using FDiff = mathlib::BezierSegment3FwdDiff<T>;\n'
    for c in ('Vec2', 'Vec3', 'Vec4'):
        u.prelude += 'template <class T> struct VA%s { mathlib::%s<T> v[8]; };\n' % (c, c)
        u.types['A' + c] = ('VA%s<T>' % c, ['v[%d].%s' % (i, k) for i in range(8) for k in 'xyzw'[:int(c[-1])]])


def ty(t):
    """(class, const, kind) of a parameter type; kind '' value, '&', '*'"""
    m = re.match(r'(const )?(\w+)(<Real>)? ?([&*]?)$', t)
    return (m.group(2), bool(m.group(1)), m.group(4)) if m else (None, False, '')


def choices(o, i, p):
    """[(declaration, argument, tag)] for a parameter"""
    c, const, kind = ty(p[1])
    n = 'p%d' % i
    if c == 'Real':
        return [({'': n + ':R', '&': n + ':R&', '*': n + (':cRp' if const else ':Rp')}[kind], n, '')]
    if c == 'int' and kind == '':
        nm = (p[0] or '').lower()
        if o['class'] == '' or nm in ('r', 'g', 'b', 'a', 'x', 'y', 'z', 'w', 'h', 's', 'v'):
            return [(n + ':int', n, '')]
        if 'count' in nm or nm in ('n', 'num'):
            return [('', '2', '')]
        if 'stride' in nm:
            return [('', 'STRIDE%d' % i, '')]
        return [('', k, k) for k in '01']
    if c in ('size_t', 'unsigned') and kind == '':
        nm = (p[0] or '').lower()
        return [('', 'STRIDE%d' % i if 'stride' in nm else '2', '')]
    if c == 'bool' and kind == '':
        return [(n + ':bool', n, '')]
    if c == 'Coord':
        return [('', 'mathlib::Coord::' + k, k) for k in ('XY' if o['class'] in TWO else 'XYZ')]
    if c == 'Axis':
        return [('', 'mathlib::Axis::' + k, k) for k in (('X', 'NY') if o['class'] in TWO else ('X', 'Y', 'Z', 'NX', 'NY', 'NZ'))]
    if c == 'InterpolationMode':
        return [('', 'mathlib::InterpolationMode::' + k, k) for k in ('Linear', 'CubicIn', 'ExponentialInOut', 'CircularOut')]
    if c == 'ResponseCurveType':
        return [('', 'mathlib::ResponseCurveType::' + k, k) for k in ('Zero', 'Linear', 'Parabolic', 'Cubic', 'Exponential', 'Cosine')]
    if c in CODE and kind in ('&', ''):
        return [('%s:%s%s' % (n, 'c' if const or kind == '' else '', CODE[c]), n, '')]
    if c in ('Vec2', 'Vec3', 'Vec4') and kind == '*':
        return [('%s:%sA%s' % (n, 'c' if const else '', c), n + '.v', '')]
    if c == 'Tolerance':
        return [('', 'nullptr', '')]
    return None


def arguments(o, drop=0):
    """[(declarations, arguments, tag)]"""
    ps = o['params'][:len(o['params']) - drop]
    opts = []
    elem = None
    for i, p in enumerate(ps):
        x = choices(o, i, p)
        if x is None:
            return None
        opts.append(x)
    out = []
    ptrs = [ty(p[1])[0] for p in ps if ty(p[1])[2] == '*' and ty(p[1])[0] in CODE]
    for combo in itertools.product(*opts):
        k = 0
        args = []
        for c in combo:
            a = c[1]
            if a.startswith('STRIDE'):
                if not ptrs:
                    a = 'sizeof(R)'
                else:
                    a = 'sizeof(mathlib::%s<R>)' % ptrs[min(k, len(ptrs) - 1)]
                    k += 1
            args.append(a)
        out.append((' '.join(c[0] for c in combo if c[0]), ', '.join(args), '_'.join(c[2] for c in combo if c[2])))
    return out


def operations():
    """public operations: (declaration, name, receiver declaration or None, call with %s for the arguments, kind of result, result class)"""
    out = []
    for o in enum_api.api():
        if o['access'] != 'public' or o['deleted'] or o['kind'] in ('FieldDecl', 'VarDecl'):
            continue
        c = o['class']
        if c and c not in CODE:
            continue
        if o['kind'] == 'CXXConstructorDecl':
            out.append((o, '%s_ctor' % c, None, 'mathlib::%s<R>(%%s)' % c, 'ctor', c))
            continue
        ret = o['type'][:o['type'].index('(')].strip()
        if o['tmpl'] and c:
            if o['name'] != 'cast':
                continue
            ret = ret.replace('CastReturnType', 'Real')
        m = re.match(r'(const )?(\w+)(<Real>)? ?([&*]?)(\[\d+\])?$', ret)
        if m is None or o['kind'] == 'CXXConversionDecl':
            continue
        rc, rk = m.group(2), m.group(4)
        if rc == 'void':
            kind = 'void'
        elif rc in ('bool', 'int', 'unsigned') and rk == '':
            kind = rc
        elif rc in ('Coord', 'Axis') and rk == '':
            kind = 'enum'
        elif rc == 'Real':
            kind = 'Real' + rk
        elif rc in CODE:
            kind = 'class' + rk
        elif ret == 'unsigned int':
            kind = 'int'
        else:
            continue
        nm = OPN.get(o['name'], o['name'])
        if c == '':
            call = 'mathlib::%s(%%s)' % o['name']
            recv = None
        elif o['static']:
            call = 'mathlib::%s<R>::%s(%%s)' % (c, o['name'])
            recv = None
        else:
            call = 'self.%s%s(%%s)' % ('template ' if o['tmpl'] else '', o['name'].replace('%', '%%') + ('<R>' if o['tmpl'] else ''))
            recv = 'self:%s%s' % ('c' if o['const'] else '', CODE[c])
        out.append((o, (c + '_' if c else '') + nm, recv, call, kind, rc))
    return out


def entries(default_forms=True):
    """[(name, params, body, ret, operation, has result object)] one per operation, overload, form and enumerator"""
    names = {}
    out, skipped = [], []
    for o, nm, recv, call, kind, rc in operations():
        ndef = sum(1 for p in o['params'] if p[2])
        done = set()
        for drop in sorted({0, ndef} if default_forms else {0}):
            if o['kind'] == 'CXXConstructorDecl' and drop == len(o['params']):
                continue          # default constructors leave the object to be filled in
            al = arguments(o, drop)
            if al is None:
                skipped.append('%s %s' % (nm, o['type']))
                continue
            for decl, args, tag in al:
                ps = [d for d in ((recv or ''), decl) if d]
                ex = call % args
                ret = 'void'
                if kind in ('void',):
                    body = ex + ';'
                elif kind in ('bool', 'int', 'unsigned'):
                    body, ret = 'return %s;' % ex, 'bool' if kind == 'bool' else 'int'
                elif kind == 'enum':
                    body, ret = 'return (int)%s;' % ex, 'int'
                elif kind in ('Real', 'Real&'):
                    body, ret = 'return %s;' % ex, 'R'
                elif kind == 'Real*':
                    body, ret = 'return *%s;' % ex, 'R'
                elif kind == 'class&' and recv and not o['const'] and rc == o['class']:
                    body, ret = 'return &%s == &self;' % ex, 'bool'
                elif kind in ('class', 'class&', 'ctor'):
                    ps.insert(0, 'o:' + CODE[rc])
                    body = 'o = %s;' % ex
                else:
                    skipped.append('%s %s' % (nm, o['type']))
                    continue
                key = (body, ' '.join(ps))
                if key in done:
                    continue
                done.add(key)
                n = re.sub(r'\W+', '_', nm + ('_' + tag if tag else ''))
                names[n] = names.get(n, 0) + 1
                if names[n] > 1:
                    n += '_v%d' % names[n]
                out.append((n, ' '.join(ps), body, ret, o, kind))
    return out, skipped
