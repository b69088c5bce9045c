#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level='model_checking', state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=a,
                  _technique=technique, _note=note, _level=level))


exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')

checks, na = [], []
for p in P:
    c = 'checks/%s.py' % p['id'].lower()
    if os.path.exists(os.path.join(V, c)):
        checks.append({'property': p['id'], 'quick_cmd': 'python3 ' + c, 'thorough_cmd': 'python3 %s --thorough' % c, 'technique': p['_technique'],
                       'level': p['_level'], 'level_note': p['_note']})
    else:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks drive the unmodified build', 'source_commits': []},
           'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
