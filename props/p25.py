import math
import re
import struct
from fractions import Fraction
from report import *
import lint

META = {
    'title': 'The double instantiation works in double precision throughout',
    'statement': 'Every class and function instantiated for double carries double precision from its arguments to its result: no intermediate value, argument of a mathematical function or stored number is of type float, no literal that takes part in the arithmetic is a float literal or a shortened decimal of pi, no limit is the limit of float, and no real number passes through an integer on the way to a real result (except to split off its fractional part). A cast to the same type keeps every number.',
    'forall': 'every definition of the library instantiated for double, every instruction on every path',
    'why': 'almost all tests use float, and the double tests compare with tolerances of float size: a sinf, a float temporary or an abs that picks the integer overload stays inside them',
    'files': ['vec2.h', 'vec3.h', 'vec4.h', 'quat.h', 'mat2.h', 'mat3.h', 'mat34.h', 'mat4.h', 'plane.h', 'sphere.h', 'circle.h', 'line2.h', 'line3.h', 'ray2.h', 'ray3.h', 'spline3.h', 'linearequations.h', 'interpolation.h', 'functions.h', 'constants.h'],
    'mech': [('mathematical functions', 'functions.h'), ('easing constants', 'interpolation.h')],
}
u = Unit('P25', META['title'])
FLIM = {3.4028234663852886e+38: 'the largest float', 1.1754943508222875e-38: 'the smallest normal float', 2.0 ** -23: 'the epsilon of float', 2.0 ** -149: 'the smallest float'}
ARITH = ('fadd', 'fsub', 'fmul', 'fdiv', 'frem')


def significant(x):
    n = abs(Fraction(x)).numerator
    while n and n % 2 == 0:
        n //= 2
    return n.bit_length()


def poor(x, compared):
    """why a literal of type double carries less than double precision"""
    if x in (0.0,) or x != x or math.isinf(x):
        return None
    a = abs(x)
    if a in FLIM:
        return FLIM[a]
    if compared:
        return None
    if a == math.floor(a) and a < 2 ** 53:
        return None
    if 14 <= significant(a) <= 24:
        return 'a literal rounded to float'
    for den in (1, 2, 3, 4, 6, 8, 12, 180):
        for num in (1, 2, 3, 4):
            for v in (math.pi * num / den, num * den / math.pi):
                if 1e-15 < abs(a - v) / v < 3e-6:
                    return 'a shortened multiple of pi'
    for v in (math.sqrt(2), math.sqrt(3), math.e, math.log(2)):
        for w in (v, v / 2, 1 / v):
            if 1e-15 < abs(a - w) / w < 3e-7:
                return 'a shortened irrational number'
    return None


def consts(ins):
    if ins.op in ('br', 'switch'):
        return
    vals = list(ins.a)
    if ins.op == 'phi':
        vals = [v for v, _ in ins.a]
    for v in vals:
        if ins.op == 'call' and isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple):
            v = v[1]
        if isinstance(v, tuple) and v and v[0] == 'cf':
            yield v[1]


def uses(f, name):
    for b in f.blocks.values():
        for i in b.insts + b.phis + [b.term]:
            if i is None:
                continue
            for v in i.a if i.op != 'phi' else [x for x, _ in i.a]:
                w = v[1] if i.op == 'call' and isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) else v
                if isinstance(w, tuple) and w[:2] == ('loc', name):
                    yield i


def split_only(f, conv):
    """a real number turned into an integer is used only as an integer, or subtracted from what it came from"""
    seen, st = set(), [conv.dest]
    while st:
        d = st.pop()
        if d in seen:
            continue
        seen.add(d)
        for i in uses(f, d):
            if i.op in ('sitofp', 'uitofp'):
                for j in uses(f, i.dest):
                    if not (j.op == 'fsub' and conv.a[0] in j.a) and j.op != 'fcmp':
                        return j
            elif i.op in ('add', 'sub', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'phi', 'select', 'trunc', 'sext', 'zext', 'srem', 'mul', 'sdiv'):
                st.append(i.dest)
            elif i.op == 'call':
                return i
            elif i.op == 'ret' and f.rty[:1] != 'i':
                return i
    return None


def run(tier, work, a):
    api, bad, mod = lint.library(work, 'double')
    viol, fns, n, lits, conv = [], [], 0, 0, 0
    seen = set()

    def report(kind, f, ins, text, key=None):
        w = lint.where(mod, ins.dbg)
        k = key or '%s/%s' % (kind, w.split('(')[-1].rstrip(')'))
        if (k, w) not in seen:
            seen.add((k, w))
            viol.append({'key': k, 'inst': 'double', 'where': w, 'text': 'VIOLATED %s at %s [%s]: %s' % (kind, w, f.name, text)})
    for f in mod.funcs.values():
        if not lint.own(mod, f):
            continue
        fns.append(f.name)
        for b in f.blocks.values():
            for ins in b.phis + b.insts + ([b.term] if b.term else []):
                n += 1
                txt = re.sub(r'%?"[^"]*"|!.*$', '', ins.text or '')
                if re.search(r'\bfloat\b', txt):
                    report('float in the double instantiation', f, ins, (ins.text or '').strip()[:140])
                for c in consts(ins):
                    lits += 1
                    why = poor(c, ins.op == 'fcmp')
                    if why:
                        w = lint.where(mod, ins.dbg)
                        report('literal of lower precision', f, ins, '%r is %s' % (c, why), 'literal/%s/%.9g' % (w.split(':')[0].split('/')[-1], c))
                if ins.op in ('fptosi', 'fptoui'):
                    conv += 1
                    j = split_only(f, ins)
                    if j is not None:
                        report('real number through an integer', f, ins, 'used by ' + (j.text or j.op).strip()[:120])
    errs = []
    if len(fns) < 500:
        errs.append('only %d definitions instantiated' % len(fns))
    cov = {'explanation': 'Every class template and free function template is instantiated for double and lowered to LLVM IR function by function; each instruction is checked for float operands, each literal for the precision of its value, each conversion to an integer for where its result flows.',
           'definitions': len(fns), 'instructions': n, 'literals': lits, 'conversions_to_integer': conv, 'not_instantiable': [x for x, _ in bad],
           'functions_analysed': sorted(fns)}
    return {'violations': viol, 'errors': errs, 'undecided': [], 'coverage': cov,
            'assumptions': ['clang-18 lowers the instantiated sources faithfully', 'literals that are only compared with (thresholds) may have any precision'],
            'summary': '%d definitions, %d instructions, %d literals, %d conversions to integers, %d violated' % (len(fns), n, lits, conv, len(viol))}
