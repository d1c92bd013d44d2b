#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that checks.py decides."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks, vlib
NOTE = {}
exec(open(os.path.join(vlib.VERIF, 'tools', 'notes.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(vlib.VERIF, 'properties.jsonl'))]
TECH = 'TLA+ specification model-checked with TLC; traces of the real code validated against it by TLC'
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for p in props:
    if p in checks.CHECKS:
        m['checks'].append(dict(property=p, quick_cmd='python3 tools/check.py %s quick' % p,
                                thorough_cmd='python3 tools/check.py %s thorough' % p,
                                evidence_file='evidence/%s.json' % p,
                                technique=NOTE.get(p, ('', ''))[0] or TECH, level='model_checking',
                                level_note=NOTE.get(p, ('', ''))[1] or DEFAULT))
    else:
        m['not_applicable'].append(dict(property=p, reason='no check has been built for it yet'))
json.dump(m, open(os.path.join(vlib.VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
