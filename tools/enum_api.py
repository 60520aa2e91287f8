#!/usr/bin/env python3
"""lists the public members of the library's class templates from clang's syntax tree"""
import json, subprocess, sys, os, tempfile
INC = os.environ.get('MATHLIB_REPO', '/repo') + '/libs/mathlib/include'


def api():
    with tempfile.NamedTemporaryFile('w', suffix='.cpp') as f:
        f.write('#include "mathlib.h"\n')
        f.flush()
        r = subprocess.run(['clang++-18', '-std=c++11', '-w', '-I' + INC, '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=mathlib', f.name], capture_output=True, text=True)
    dec = json.JSONDecoder()
    t = r.stdout
    i = 0
    out = []
    def walk(n):
        if n.get('kind') == 'ClassTemplateDecl':
            rec = [c for c in n.get('inner', []) if c['kind'] == 'CXXRecordDecl' and c.get('completeDefinition')]
            for c in rec:
                acc = 'private' if c.get('tagUsed') == 'class' else 'public'
                for m in c.get('inner', []):
                    if m['kind'] == 'AccessSpecDecl':
                        acc = m['access']
                        continue
                    k = m
                    if m['kind'] == 'FunctionTemplateDecl':
                        k = [x for x in m['inner'] if x['kind'].endswith('MethodDecl')]
                        k = k[0] if k else None
                        if k is None:
                            continue
                    if m.get('isImplicit'):
                        continue
                    if k['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'FieldDecl', 'VarDecl'):
                        ps = [(x.get('name'), x['type']['qualType'], bool(x.get('init'))) for x in k.get('inner', []) if x['kind'] == 'ParmVarDecl']
                        out.append({'class': c['name'], 'kind': k['kind'], 'name': k['name'], 'type': k['type']['qualType'], 'params': ps, 'static': k.get('storageClass') == 'static', 'access': acc,
                                    'const': k['type']['qualType'].endswith(' const'), 'deleted': bool(k.get('explicitlyDeleted')), 'default': bool(k.get('explicitlyDefaulted')), 'tmpl': m['kind'] == 'FunctionTemplateDecl'})
            return
        if n.get('kind') in ('FunctionDecl', 'FunctionTemplateDecl'):
            k = n
            if n['kind'] == 'FunctionTemplateDecl':
                k = ([x for x in n['inner'] if x['kind'] == 'FunctionDecl'] or [None])[0]
                if k is None:
                    return
            ps = [(x.get('name'), x['type']['qualType'], bool(x.get('init'))) for x in k.get('inner', []) if x['kind'] == 'ParmVarDecl']
            out.append({'class': '', 'kind': 'FunctionDecl', 'name': k['name'], 'type': k['type']['qualType'], 'params': ps, 'static': True, 'access': 'public', 'const': False, 'deleted': False, 'default': False, 'tmpl': n['kind'] == 'FunctionTemplateDecl'})
            return
        for c in n.get('inner', []):
            walk(c)
    while True:
        i = t.find('{', i)
        if i < 0:
            break
        o, i = dec.raw_decode(t, i)
        walk(o)
    seen = set()
    res = []
    for o in out:
        k = json.dumps(o, sort_keys=True)
        if k not in seen:
            seen.add(k)
            res.append(o)
    return res


if __name__ == '__main__':
    for o in api():
        if len(sys.argv) < 2 or o['class'] == sys.argv[1]:
            print(o['access'][:3], o['class'], o['kind'][3:7], 'static' if o['static'] else '', 'const' if o['const'] else '', o['name'], [p[1] + (' =' if p[2] else '') for p in o['params']], o['type'].split('(')[0])
