#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os
from checks import CHECKS, TECHNIQUE, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
SAN = ('Held on the executions counted in the evidence file, not on all. Trusts clang-20\'s sanitizer runtimes and the '
       'oracle named in the rule; code paths the workload does not reach are not covered.')
checks = []
for p in props:
    if p not in CHECKS:
        assert p in NOT_APPLICABLE, p
        continue
    checks.append(dict(property=p, quick_cmd='python3 verif.py check %s --tier quick' % p,
                       thorough_cmd='python3 verif.py check %s --tier thorough' % p,
                       technique=TECHNIQUE[p], level='exploration',
                       level_note=CHECKS[p].get('note', SAN)))
m = dict(version=1, setup_cmd='python3 verif.py setup',
         hooks=dict(guard='PYSTD_VERIF', enable='no hooks were needed: the checks compile the unmodified sources of /repo', source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()])
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
