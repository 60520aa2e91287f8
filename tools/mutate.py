#!/usr/bin/env python3
"""Development helper: mutate.py SEED COUNT OUT [file regex]: random one-token changes to the library in a private
copy; each is run through the checks that name its file until one reports it.  Prints the survivors.
Run it as:  tools/mutate.sh SEED COUNT OUT [regex]  (private mount namespace, copies of /repo and /verif)."""
import json, os, random, re, subprocess, sys, glob
seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
rx = sys.argv[4] if len(sys.argv) > 4 else '.'
rng = random.Random(seed)
INC = '/repo/libs/mathlib/include/'
files = [f for f in sorted(glob.glob(INC + 'impl/*.h') + [INC + 'functions.h', INC + 'interpolation.h']) if re.search(rx, f)]
sys.path.insert(0, '/verif/props'); sys.path.insert(0, '/verif/engine')
props = {}
for l in open('/verif/properties.jsonl'):
    d = json.loads(l)
    props[d['id']] = d
anch = {}
import importlib
for p in sorted(props):
    src = open('/verif/props/%s.py' % p.lower()).read()
    m = re.search(r"'files': (\[[^\]]*\])", src)
    fs = eval(m.group(1)) if m else []
    for f in fs:
        anch.setdefault(os.path.basename(f), []).append(p)
MUT = [
    (r'(?<![<\-+=!>&|])<(?![<=a-zA-Z])', '<='), (r'(?<![<\-+=!>&|])< (?!R)', '> '), (r'<=', '<'), (r'(?<![\->])>=', '>'), (r' > ', ' >= '), (r' > ', ' < '), (r'==', '!='), (r'&&', '||'), (r'\|\|', '&&'),
    (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r'\+=', '-='), (r'-=', '+='), (r'\*=', '/='),
    (r'\.x\b', '.y'), (r'\.y\b', '.z'), (r'\.y\b', '.x'), (r'\.z\b', '.x'), (r'\.w\b', '.x'), (r'\.x\b', '.z'), (r'\bx\b', 'y'), (r'\by\b', 'x'), (r'\bz\b', 'y'),
    (r'Real\(1\)', 'Real(0)'), (r'Real\(0\)', 'Real(1)'), (r'Real\(2\)', 'Real(1)'), (r'Real\(0\.5\)', 'Real(0.25)'), (r'Real\(1\)', 'Real(1.001)'), (r'\bsin\(', 'cos('), (r'\bcos\(', 'sin('), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('),
    (r'\binf\b', 'sup'), (r'\bsup\b', 'inf'), (r'\bstart\b', 'end'), (r'\bend\b', 'start'), (r'\ba\.', 'b.'), (r'\bb\.', 'a.'), (r'return true', 'return false'), (r'return false', 'return true'),
    (r'= -', '= '), (r'\(-', '('), (r'= (?=[a-z(])', '= -'), (r'\[i\]', '[0]'), (r'i = 0', 'i = 1'), (r'i = 1', 'i = 0'), (r'\bfrom\.', 'to.'), (r'\bto\.', 'from.'), (r'\bcenter\b', 'extents'), (r'\bred\b', 'green'), (r'\bgreen\b', 'blue'), (r'\bblue\b', 'red'), (r'\balpha\b', 'red'),
    (r'Coord::X', 'Coord::Y'), (r'Coord::Y', 'Coord::Z'), (r'Coord::Z', 'Coord::X'), (r'Axis::N?[XYZ]', 'Axis::X'), (r'n-1', 'n-2'), (r'\.transpose\(\)', ''), (r'\.normalized\(\)', ''),
    ('DELETE', None), ('DELETE', None), ('DELETE', None), ('DELETE', None),
]
if os.environ.get('MUTSET') == 'eps':
    # thresholds instead of exact comparisons
    E = r'((?:[\w.\[\]]|->|\(\w*\))+)'
    MUT = [(E + r' == (?:Real\(0\)|0)', r'mathlib::abs(\1) < Real(%s)'), (E + r' > (?:Real\(0\)|0\.0f|0)', r'\1 > Real(%s)'), (E + r' < (?:Real\(0\)|0\.0f|0)', r'\1 < -Real(%s)'),
           (E + r' >= (?:Real\(0\)|0\.0f|0)', r'\1 > -Real(%s)'), (E + r' <= (?:Real\(0\)|0\.0f|0)', r'\1 < Real(%s)'), (E + r' != (?:Real\(0\)|0)', r'mathlib::abs(\1) > Real(%s)'),
           (E + r' == Real\(1\)', r'mathlib::abs(\1 - Real(1)) < Real(%s)'), (E + r' < ' + E, r'\1 < \2 - Real(%s)'), (E + r' > ' + E, r'\1 > \2 + Real(%s)')]
    MUT = [(a, b % e) for a, b in MUT for e in ('1e-9', '1e-12', '1e-6')]
cands = []
for f in files:
    t = open(f, newline='', encoding='latin-1').read().split('\n')
    for i, l in enumerate(t):
        s = l.strip()
        if not s or s.startswith(('//', '#', 'template', '*', '/*', 'assert', 'using')) or '::' in s and s.endswith((')', 'const')) or 'assert' in s:
            continue
        code = l.split('//')[0]
        for k, (a, b) in enumerate(MUT):
            if a == 'DELETE':
                if re.match(r'\s+[\w.\->\[\]]+ ?[-+*/]?= ?.*;\s*$', code) or re.match(r'\s+[\w.>-]+\(.*\);\s*$', code) or re.match(r'\s+if .*;\s*$', code):
                    cands.append((f, i, None, None, None))
            else:
                for m in re.finditer(a, code):
                    cands.append((f, i, m.start(), m.end(), m.expand(b) if '\\' in b else b))
rng.shuffle(cands)
res = open(out, 'a')
done = 0
COV = {}
for fl, ln, nm, ps in json.load(open('/tmp/cov.json')):      # written by the coverage audit: which checks reach which definition
    COV.setdefault(os.path.basename(fl), []).append((ln, ps))
LATE = ('P28', 'P27', 'P26', 'P25', 'P24')


def ORDER(f, line):
    best = [ps for ln, ps in sorted(COV.get(f, [])) if ln <= line]
    ps = best[-1] if best else []
    own = [p for p in anch.get(f, []) if p in ps and p not in LATE]
    return own + [p for p in ps if p not in own and p not in LATE] + [p for p in ('P28', 'P27', 'P24', 'P26', 'P25')]


for f, i, a, b, r in cands:
    if done >= count:
        break
    t = open(f, newline='', encoding='latin-1').read()
    ls = t.split('\n')
    old = ls[i]
    ls[i] = '' if a is None else old[:a] + r + old[b:]
    if ls[i] == old:
        continue
    open(f, 'w', newline='', encoding='latin-1').write('\n'.join(ls))
    try:
        c = subprocess.run('g++ -std=c++11 -DNDEBUG -fsyntax-only -w -I %s -x c++ /tmp/all_inst.cpp' % INC, shell=True, capture_output=True)
        if c.returncode:
            continue
        done += 1
        got, und = None, []
        for p in ORDER(os.path.basename(f), i + 1):
            try:
                k = subprocess.run(['python3', 'check.py', p], capture_output=True, text=True, cwd='/verif', timeout=800)
            except subprocess.TimeoutExpired:
                und.append(p + ':TIMEOUT')
                continue
            if k.returncode == 1:
                got = p
                break
            n = k.stdout.count('UNDECIDED')
            if n or k.returncode:
                und.append('%s:%d:rc%d' % (p, n, k.returncode))
        print('%s %s %s:%d  %s  =>  %s' % ('caught ' + got if got else 'SURVIVED', ','.join(und), os.path.basename(f), i + 1, old.strip(), ls[i].strip()), file=res, flush=True)
    finally:
        open(f, 'w', newline='', encoding='latin-1').write(t)
