#!/usr/bin/env python3
"""writes MANIFEST.json from dv/props.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'dv'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl')) if l.strip()]
m = dict(version=1, setup_cmd='python3-vt -c "import z3, pycparser" && test -x /opt/venv/bin/python',
         checks=[], not_applicable=[],
         notes='check.py generates the obligations from /repo at every run; see DESIGN.md. No hooks are needed in /repo.')
for i in ids:
    v = props.META.get(i)
    if v is None:
        m['not_applicable'].append(dict(property=i, reason=props.NA.get(i, 'not covered yet: contracts for it are under construction')))
        continue
    m['checks'].append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % i,
                            evidence_file='evidence/%s.json' % i, technique=v['technique'], level=v['level'], level_note=v['note']))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
