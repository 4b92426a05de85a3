#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/bin')
import checks
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
m = dict(version=1, setup_cmd="bash bin/setup.sh", hooks=checks.HOOKS, checks=[], not_applicable=[],
         notes="All checks: TLA+ specifications under spec/, decided by TLC; drivers under harness/ run the code of /repo's working tree. See DESIGN.md.")
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        m['checks'].append(dict(property=i, quick_cmd='python3 bin/check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 bin/check.py %s --thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=checks.TECH.get(i, checks.TECH['default']), level=checks.LEVEL[i], level_note=checks.NOTE.get(i, checks.NOTE['default'])))
    else:
        m['not_applicable'].append(dict(property=i, reason=na.get(i, 'Specified in properties.jsonl; its TLA+ specification and driver are not built yet, so it is not claimed.')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
