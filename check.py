#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo by static analysis of its current source.

exit 0  property holds on everything analysed      exit 1  VIOLATION line(s) printed
exit 2  the analysis itself could not be carried out (anchor vanished, unit does not compile, ...)"""
import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'props'))
sys.dont_write_bytecode = True


def load_known():
    out = []
    p = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                out.append(json.loads(l))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import unit as U
    mod = importlib.import_module(a.pid.lower())
    work = tempfile.mkdtemp(prefix='mlv-%s-' % a.pid)
    try:
        rep = mod.run(tier, work, a)
    except U.AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (a.pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % a.pid)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    known = [k for k in load_known() if k.get('property') == a.pid and k.get('status') == 'known']
    viol, findings = [], []
    for v in rep['violations']:
        hit = None
        for k in known:
            if k['key'] == v['key'] and (not k.get('inst') or v.get('inst') in k['inst']):
                hit = k
        (findings if hit else viol).append((v, hit))
    ev = {'property': a.pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': rep['coverage'],
          'assumptions': rep.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    ev['coverage']['known_findings'] = sorted(set(k['key'] for _, k in findings))
    ev['coverage']['violation_reports'] = [v for v, _ in viol][:50]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    evp = os.path.join(HERE, 'evidence', a.pid + '.json')
    with open(evp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    if rep.get('errors'):
        for e in rep['errors']:
            print('ANALYSIS-ERROR property=%s %s' % (a.pid, e))
    for u in rep.get('undecided', []):
        print('UNDECIDED property=%s %s' % (a.pid, u))
    seen = set()
    for v, k in findings:
        if k['key'] not in seen:
            seen.add(k['key'])
            print('KNOWN-FINDING: property=%s %s' % (a.pid, k['what']))
    c = rep['coverage']
    print('%s: %s' % (a.pid, rep['summary']))
    if viol:
        rdir = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, a.pid + '.txt')
        with open(rp, 'w') as f:
            for v, _ in viol:
                f.write(v['text'] + '\n')
        for v, _ in viol[:20]:
            print(v['text'])
        print('VIOLATION property=%s replay=%s' % (a.pid, rp))
        return 1
    if rep.get('errors'):
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
