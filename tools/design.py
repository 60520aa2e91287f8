#!/usr/bin/env python3
"""rewrite the seed table of DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
rows = ['| seed | property | what it breaks | needs |', '|---|---|---|---|']
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(m))
    c = d.get('caught', 'caught')
    rows.append('| %s | %s %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], c, d['what_it_breaks'], d['needs']))
t = open('/verif/DESIGN.md').read()
b = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: b, t, flags=re.S) if '<!-- seeds -->' in t else t.replace('@SEEDS@', b)
open('/verif/DESIGN.md', 'w').write(t)
