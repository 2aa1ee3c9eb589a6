"""regenerate MANIFEST.json from the job table"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kqsa import jobs
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
T = jobs.table(); have = {p for j in T for p in j.props}
checks = []; na = []
for p in ids:
    if p in have and p not in jobs.NA:
        checks.append(dict(property=p, quick_cmd='python3 kqsa/check.py %s --tier quick' % p, thorough_cmd='python3 kqsa/check.py %s --tier thorough' % p, evidence_file='evidence/%s.json' % p,
                           technique=jobs.TECH.get(p, jobs.TECH0), level='other', level_note=jobs.NOTE.get(p, '') or jobs.NOTE0))
    else:
        na.append(dict(property=p, reason=jobs.NA.get(p, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
