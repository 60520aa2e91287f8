#!/usr/bin/env python3
"""which function definitions of the library no property's entry points reach (development aid)"""
import sys, os, re, tempfile, subprocess, importlib, glob, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/props']
import unit as U
import report


def subprograms(ll):
    """{(file, line): name} of the subprograms with real code or inlined code"""
    t = open(ll).read()
    files = {}
    for m in re.finditer(r'^(!\d+) = !DIFile\(filename: "([^"]*)", directory: "([^"]*)"', t, re.M):
        p = m.group(2)
        files[m.group(1)] = os.path.normpath(os.path.join(m.group(3), p))
    sp = {}
    for m in re.finditer(r'^(!\d+) = distinct !DISubprogram\(name: "([^"]*)".*?file: (!\d+), line: (\d+)', t, re.M):
        sp[m.group(1)] = (files.get(m.group(3), '?'), int(m.group(4)), m.group(2))
    used = set(re.findall(r'!DILocation\([^)]*scope: (!\d+)', t))
    blk = dict(re.findall(r'^(!\d+) = distinct !DILexicalBlock\(scope: (!\d+)', t, re.M))
    r = {}
    for s in used:
        while s in blk:
            s = blk[s]
        if s in sp:
            r[sp[s][:2]] = sp[s][2]
    return r


def main():
    names = sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(V + '/props/p[0-9][0-9].py'))
    cov = {}
    for n in names:
        mod = importlib.import_module(n)
        us = [x for x in vars(mod).values() if isinstance(x, U.Unit)]
        d = tempfile.mkdtemp()
        for x in us:
            x.compile(d)
            for k, v in subprograms(os.path.join(d, x.pid + '.opt.ll')).items():
                cov.setdefault(k, set()).add(n)
    api = json.load(open(V + '/props/api.json'))
    cl = sorted({o['class'] for o in api if o['class']})
    d = tempfile.mkdtemp()
    src = d + '/a.cpp'
    open(src, 'w').write('#include "mathlib.h"\n' + ''.join('template class mathlib::%s<double>;\n' % c for c in cl))
    r = subprocess.run([U.CLANG, '-std=c++11', '-O0', '-fno-exceptions', '-gline-tables-only', '-w', '-I' + U.INC, '-S', '-emit-llvm', src, '-o', d + '/a.ll'], capture_output=True, text=True)
    print(r.stderr[:3000])
    al = subprograms(d + '/a.ll')
    miss = {k: v for k, v in al.items() if k not in cov and k[0].startswith('/repo')}
    print(len(al), 'definitions,', len(miss), 'not reached')
    for (f, l), v in sorted(miss.items()):
        print('%s:%d %s' % (f[len('/repo/libs/mathlib/include/'):], l, v))


main()
