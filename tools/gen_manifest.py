#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from meta.py and properties.jsonl (run it after editing either)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
from meta import META, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in META and not os.environ.get('SKIP', '') == i:
        m = META[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=m['technique'], level=m['level'], level_note=m['note']))
    else: na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check has been built for it yet')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
    notes='All checks explore the real library code, rebuilt from /repo\'s working tree with AddressSanitizer by mc/build.py; no hooks are needed in /repo. See DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
