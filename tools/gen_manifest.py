#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/table.py; properties without a check are listed as not applicable."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks.table import CHECKS, META
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for p in props:
    if p not in CHECKS: continue
    m = META[p]
    checks.append(dict(property=p, quick_cmd='VERIF_TIER=quick python3 run.py %s --tier quick' % p, thorough_cmd='VERIF_TIER=thorough python3 run.py %s --tier thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=m['technique'], level=m['level'], level_note=m['note']))
na = [dict(property=p, reason='check under construction') for p in props if p not in CHECKS]
doc = dict(version=1, setup_cmd='g++ --version > /dev/null && python3 -c "import checks.table"',
           hooks=dict(guard='VERIF_HOOKS', enable='not used: the checks drive the public interface and need no hooks', source_commits=[]),
           checks=checks, not_applicable=na,
           notes='Every check is built from /repo/src by run.py (g++ -O1 with AddressSanitizer) and runs the real headers; see DESIGN.md.')
json.dump(doc, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
