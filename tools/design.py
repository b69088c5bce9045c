#!/usr/bin/env python3
"""fill the generated sections of DESIGN.md (per property text, table of planted bugs) from tools/design_data.py and seeded/*/meta.json"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(R, 'tools/design_data.py')).read(), ns)
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
out = []
for p in sorted(props, key=lambda p: p['id']):
    out.append('### %s %s\n\n%s\n' % (p['id'], p['title'], ns['D'][p['id']].strip()))
seeds = ['| bug | property | needs | result |', '|--|--|--|--|']
for d in sorted(os.listdir(os.path.join(R, 'seeded'))):
    m = json.load(open(os.path.join(R, 'seeded', d, 'meta.json')))
    seeds.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), ns['S'].get(d, 'caught')))
f = os.path.join(R, 'DESIGN.md')
s = open(f).read()
for tag, text in (('PROPS', '\n'.join(out)), ('SEEDS', '\n'.join(seeds))):
    b, e = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    if b in s:
        s = re.sub(re.escape(b) + '.*?' + re.escape(e), lambda m: b + '\n' + text + '\n' + e, s, flags=re.S)
    else:
        s = s.replace('@%s@' % tag, b + '\n' + text + '\n' + e)
open(f, 'w').write(s)
