#!/usr/bin/env python3
"""Development helper: seed.py SPEC.json ... builds /verif/seeded/<id>/ and confirms it in a scratch copy bind-mounted over /repo
(private mount namespace).  SPEC: {"id","property","file"(or "edits":[{file,old,new,count}]),"old","new","count","demo","needs","breaks"}"""
import json, os, shutil, subprocess, sys, tempfile
if os.environ.get('SEED_NS') != '1':
    d = tempfile.mkdtemp(prefix='seedwt-')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    r = subprocess.call(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo && SEED_NS=1 exec python3 %s "$@"' % (d, os.path.abspath(__file__)), 'x'] + sys.argv[1:])
    shutil.rmtree(d)
    sys.exit(r)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
sub = os.path.dirname(os.path.abspath(__file__)) + '/sub.py'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, cwd='/repo', **k)


DEMO = '''#!/bin/bash
# exit 0 when the demonstrated behaviour is right
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
g++ -std=c++11 -DNDEBUG -O1 -w -I libs/mathlib/include "$(dirname "$0")/demo.cpp" -o "$d/demo" || exit 3
"$d/demo"
'''
PRE = '''#include "mathlib.h"
#include <cstdio>
#include <cmath>
using namespace mathlib;
static int bad = 0;
static void near(double got, double want, const char* what) {
    double tol = 1e-5 * (1 + std::fabs(want));
    if (!(std::fabs(got - want) <= tol)) { std::printf("%s: got %.9g, expected %.9g\\n", what, got, want); bad = 1; }
}
static void is(bool ok, const char* what) { if (!ok) { std::printf("wrong: %s\\n", what); bad = 1; } }
int main() {
'''
for sp in sys.argv[1:]:
    for s in json.load(open(sp)):
        sid = s['id']
        sh('git checkout -q -- . ')
        edits = s.get('edits') or [s]
        bad = None
        for e in edits:
            f = '/repo/libs/mathlib/include/' + e['file']
            r = subprocess.run(['python3', sub, f], input=json.dumps([[e['old'], e['new'], e.get('count', 1)]]), text=True, capture_output=True)
            if r.returncode:
                bad = r.stderr + r.stdout
        if bad:
            print(sid, 'EDIT FAILED', bad)
            continue
        dst = '/verif/seeded/' + sid
        os.makedirs(dst, exist_ok=True)
        open(dst + '/patch.diff', 'w', newline='').write(subprocess.run(['git', 'diff', '--binary'], cwd='/repo', capture_output=True).stdout.decode())
        open(dst + '/demo.sh', 'w').write(DEMO)
        os.chmod(dst + '/demo.sh', 0o755)
        open(dst + '/demo.cpp', 'w').write(PRE + s['demo'] + '\n    return bad;\n}\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
        t = sh('bash /opt/vp/test.sh /tmp/seed-o.json')
        o = set(json.load(open('/tmp/seed-o.json'))['passed'])
        miss = sorted(stable - o)
        d1 = sh('bash %s/demo.sh' % dst)
        c = subprocess.run(['python3', '/verif/check.py', s['property']], capture_output=True, text=True)
        caught = c.returncode == 1 and 'VIOLATION property=' + s['property'] in c.stdout
        sh('git checkout -q -- .')
        d0 = sh('bash %s/demo.sh' % dst)
        notbase = []
        f = None
        for ln in open(dst + '/patch.diff', newline='').read().split('\n'):
            if ln.startswith('--- a/'):
                f = ln[6:].strip()
            elif ln.startswith('@@'):
                n = int(ln.split()[1][1:].split(',')[0])
            elif ln.startswith('-') and not ln.startswith('---'):
                b = sh('git blame -s -L %d,%d HEAD -- %s' % (n, n, f)).stdout
                if not b.startswith('^') and '52985cb' not in b[:12]:
                    notbase.append((f, n, b[:9]))
                n += 1
            elif ln.startswith(' '):
                n += 1
        if notbase:
            print('   NOT BASE LINES', notbase)
        ok = not notbase and not miss and d1.returncode not in (0, 3) and d0.returncode == 0
        print(sid, 'VALID' if ok else 'INVALID', 'caught' if caught else 'MISSED rc=%d' % c.returncode, 'tests missing %d %s' % (len(miss), miss[:2]) if miss else '', 'demo %d/%d %s%s' % (d1.returncode, d0.returncode, (d1.stderr or '')[:300] if d1.returncode == 3 else '', d0.stdout[:200] if d0.returncode else ''), flush=True)
        if not ok:
            shutil.rmtree(dst)
