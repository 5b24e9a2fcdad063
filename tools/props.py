#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.d/*.json (one file per property)."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(root + '/tools/props.d/*.json')):
    p = json.load(open(f))
    c = p.pop('check', None)
    n = p.pop('not_applicable', None)
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
    props.append(p)
    if c:
        q = c['cmd']
        checks.append({'property': p['id'], 'quick_cmd': q, 'thorough_cmd': 'VERIF_TIER=thorough ' + q,
                       'technique': c['technique'], 'level': c.get('level', 'model_checking'), 'level_note': c['note']})
    else:
        na.append({'property': p['id'], 'reason': n or 'check not built yet'})
with open(root + '/properties.jsonl', 'w') as o:
    for p in props:
        o.write(json.dumps(p, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'tools/setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the unmodified sources are compiled against stand-ins for the missing ROS packages', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check compiles the sources of /repo against the stand-ins in stubs/ and explores executions of that code exhaustively within the bounds given in DESIGN.md.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
import runpy; runpy.run_path(root + "/tools/design.py")
print(len(props), 'properties', len(checks), 'checks', len(na), 'not claimed')
