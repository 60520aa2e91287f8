"""The whole library as LLVM IR: every class template and every free function template instantiated explicitly, each
function kept apart (no inlining), for rules that look at all definitions rather than at chosen entry points."""
import os
import re
import subprocess
import sys
import ir
from unit import CLANG, OPT, INC, REPO, AnalysisError

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import enum_api

NAMES = re.compile(r'\b(Vec[234]|Mat2|Mat3|Mat34|Mat4|Quat|Line[23]|Ray[23]|Plane|Sphere|Circle|C?AABB[23]|Tri2|Color\w+|InterpolationMode|ResponseCurveType|Coord|Axis|MatrixTolerance)\b')


def instantiations(real):
    api = enum_api.api()
    cl = sorted({o['class'] for o in api if o['class']})
    out = ['template class mathlib::%s<%s>;' % (c, real) if c != 'MatrixTolerance' else 'template struct mathlib::%s<%s>;' % (c, real) for c in cl]
    for o in api:
        if o['tmpl'] and o['kind'] in ('FunctionDecl', 'CXXMethodDecl') and o['class'] == '':
            t = o['type']
            f = lambda x: re.sub(r'\b(Real|RealT|T)\b', real, NAMES.sub(r'mathlib::\1', x))
            out.append('template %s mathlib::%s(%s);' % (f(t[:t.index('(')].strip()), o['name'], ', '.join(f(p[1]) for p in o['params'])))
        elif o['class'] and o['name'] == 'cast' and o['tmpl']:
            out.append('template mathlib::%s<%s> mathlib::%s<%s>::cast<%s>() const;' % (o['class'], real, o['class'], real, real))
    return api, out


def library(work, real='double', passes='function(sroa,early-cse)', flags=('-O1', '-Xclang', '-disable-llvm-passes')):
    """(api, lines that could not be instantiated, module)"""
    api, lines = instantiations(real)
    src = os.path.join(work, 'lib_%s.cpp' % real)
    ll = src[:-4] + '.ll'
    bad = []
    for _ in range(40):
        open(src, 'w').write('#include "mathlib.h"\n' + '\n'.join(lines) + '\n')
        r = subprocess.run([CLANG, '-std=c++11'] + list(flags) + ['-fno-builtin', '-fno-math-errno', '-fno-threadsafe-statics', '-ffp-contract=off', '-fno-exceptions', '-fno-rtti',
                            '-gline-tables-only', '-fno-access-control', '-w', '-DNDEBUG', '-ferror-limit=0', '-I' + INC, '-S', '-emit-llvm', src, '-o', ll], capture_output=True, text=True, cwd=work)
        if r.returncode == 0:
            break
        # instantiations the sources do not support are left out and reported
        at = {int(m.group(1)) for m in re.finditer(r'lib_\w+\.cpp:(\d+):\d+: (?:error|note: in instantiation)', r.stderr)}
        drop = [k for k in at if 2 <= k <= len(lines) + 1]
        if not drop:
            raise AnalysisError('the library does not compile:\n' + r.stderr[:3000])
        for k in sorted(drop, reverse=True):
            bad.append((lines.pop(k - 2), r.stderr[:500]))
    ol = src[:-4] + '.opt.ll'
    r = subprocess.run([OPT, '-S', '-passes=' + passes, ll, '-o', ol], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('opt failed:\n' + r.stderr[:2000])
    return api, bad, ir.parse_module(open(ol).read())


def where(mod, dbg):
    fr = mod.loc(dbg) if dbg else []
    if not fr:
        return '?'
    f, l, n = fr[0]
    return '%s:%d (%s)' % (os.path.relpath(f, REPO), l, n)


def own(mod, f):
    """the function is a definition of the library (not of the standard headers)"""
    return any(i.dbg and mod.loc(i.dbg) and mod.loc(i.dbg)[-1][0].startswith(REPO) for b in f.blocks.values() for i in b.insts + [b.term] if i)
