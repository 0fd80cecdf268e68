#!/usr/bin/env python3
"""regenerate MANIFEST.json from plan.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for k, p in sorted(plan.PLAN.items()):
    checks.append(dict(property=k, quick_cmd='bin/check %s --tier quick' % k, thorough_cmd='bin/check %s --tier thorough' % k,
                       evidence_file='evidence/%s.json' % k, technique=p.get('technique', plan.TECHNIQUE), level=p['level'],
                       level_note=p.get('note', plan.NOTE), **({'theorems': p['theorems']} if p.get('theorems') else {})))
na = [dict(property=i, reason=plan.NA.get(i, 'no check built')) for i in props if i not in plan.PLAN]
m = dict(version=1, setup_cmd='bin/setup', hooks=dict(guard='none', enable='no hooks: the checks use the public API and the macro-expanded source', source_commits=[]),
         checks=checks, not_applicable=na, notes=plan.NOTES)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
