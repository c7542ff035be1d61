#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from tools/proptable.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
sys.dont_write_bytecode = True
from proptable import PROPS, TECH, NA
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd='./check.sh ' + i, thorough_cmd='VERIF_TIER=thorough ./check.sh ' + i,
                           technique=TECH.get(i) or p['technique'], level=p['level'],
                           level_note='Holds on the executions observed (counts in the evidence file); not a proof. ' + '; '.join(p['assumptions'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Run-time monitoring of the real code: generated workloads, oracles over recorded executions, race detector. No hooks in /repo are needed; yield points are inserted through a build overlay by harness/yieldgen.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
