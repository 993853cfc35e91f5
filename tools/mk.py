#!/usr/bin/env python3-vt
"""writes MANIFEST.json from vlib/registry.py and tools/na.json"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/vlib')
import registry
props = [json.loads(l) for l in open(R + '/properties.jsonl') if l.strip()]
na = json.load(open(R + '/tools/na.json'))
checks = []
for p in props:
    if p['id'] in registry.REG:
        checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s quick' % p['id'], thorough_cmd='python3-vt check.py %s thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'],
                           technique=registry.TECH, level='proof', level_note=registry.NOTE.get(p['id'], registry.NOTE['*'])))
ids = {p['id'] for p in props}
assert set(na) | {c['property'] for c in checks} == ids, (ids ^ (set(na) | {c['property'] for c in checks}))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in na.items()],
         notes='No hooks: the checks read the unmodified headers of /repo. Repairs and findings: known-findings.txt.')
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
open(R + '/MANIFEST.json', 'a').write('\n')
