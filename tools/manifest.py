#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from rules/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from rules.table import RULES, NOT_APPLICABLE, level_of
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in RULES:
        r = RULES[i]
        checks.append(dict(property=i, quick_cmd=f'python3 bin/check.py {i}',
                           thorough_cmd=f'python3 bin/check.py {i} --tier thorough',
                           technique=r['technique'], level=level_of(i), level_note=r['note']))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3 bin/check.py --build', checks=checks, not_applicable=na),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
