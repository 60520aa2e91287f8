#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from the META of every props/*.py and props/na.json."""
import glob, importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [H + '/engine', H + '/props']
props, checks = [], []
TECH = 'abstract interpretation of LLVM IR: gated value graphs compared with specified normal forms'
NOTE = ('Static analysis over the reals of the compiled sources, float and double instances: every listed entry point is compared on all inputs '
        '(per region of a sign partition) with its specification. Rounding, overflow and NaN are outside the claim; clang lowering and the engine are trusted.')
for f in sorted(glob.glob(H + '/props/p[0-9]*.py')):
    m = importlib.import_module(os.path.basename(f)[:-3]).META
    pid = os.path.basename(f)[:-3].upper()
    files = ['libs/mathlib/include/' + x for x in m['files']]
    props.append({'id': pid, 'title': m['title'], 'statement': m['statement'],
                  'quantifier': {'over': m.get('over', ['inputs']), 'text': m['forall']},
                  'why_tests_cant': m['why'],
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': 'libs/mathlib/include/' + w} for n, w in m['mech']],
                              'observe_at': m.get('observe', ['return values and object members after each public call']), 'hook_needed': None}})
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s --tier quick' % pid, 'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
                   'technique': m.get('tech', TECH), 'level': 'other', 'level_note': m.get('note', NOTE)})
na = json.load(open(H + '/props/na.json'))
for p in na:
    props.append(p['entry'])
with open(H + '/properties.jsonl', 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
       'not_applicable': [{'property': p['entry']['id'], 'reason': p['reason']} for p in na],
       'notes': 'Static analysis only: no library code is executed. See DESIGN.md.'}
json.dump(man, open(H + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props:
    jsonschema.validate(p, sch)
jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed', len(na), 'not applicable')
