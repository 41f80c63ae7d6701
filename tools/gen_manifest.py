#!/usr/bin/env python3
"""Writes plan.json (what each check runs) and MANIFEST.json from one description."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, 'tools/plan_data.py')).read())
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
plan = {}
checks = []
for p in props:
    if p['id'] not in PLANS: continue
    q = PLANS[p['id']]
    plan[p['id']] = dict(batches=[dict(scenario=s, build=b, quick=n, thorough=t) for s, b, n, t in q['batches']],
                         rule=q['rule'], real=REAL + q.get('real', []), stub=STUB + q.get('stub', []), assumptions=ASSUME + q.get('assume', []))
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py --property %s --tier quick' % p['id'],
                       thorough_cmd='python3 check.py --property %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=q['technique'], level='exploration', level_note=q['note']))
json.dump(plan, open(os.path.join(HERE, 'plan.json'), 'w'), indent=1)
na = [dict(property=i, reason=r) for i, r in NA.items()]
for p in props:
    if p['id'] not in PLANS and p['id'] not in NA: na.append(dict(property=p['id'], reason='not built yet'))
json.dump(dict(version=1, setup_cmd='python3 check.py --build-only', checks=checks, not_applicable=na, notes=NOTES), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
