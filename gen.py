#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and checks.py"""
import json, os
from props import P, NA
from checks import CHECKS
H = os.path.dirname(os.path.abspath(__file__))
TECH = 'bounded symbolic execution of the C sources (CBMC, SAT); counterexamples replayed on an ASan/UBSan build'
ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in P + [n['prop'] for n in NA if 'prop' in n]:
        f.write(json.dumps({k: v for k, v in p.items() if k != 'note'}) + '\n')
checks = []
for p in P:
    i = p['id']
    if i not in CHECKS:
        print('no check:', i); continue
    c = CHECKS[i]
    b = '; '.join('%s: %s' % (v['name'], v.get('bounds', '')) for v in c['variants'] if not v.get('thorough'))
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=TECH, level='other',
                       level_note='The solver decides every obligation for all values within the bounds; nothing is said outside them. Bounds: ' + (b or '-') + '. Trusted: CBMC, the GLib/libc models and system-call stand-ins (DESIGN.md).' + (' ' + c['note'] if c.get('note') else '')))
extra = set(CHECKS) - set(ids)
assert not extra, extra
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks,
               not_applicable=[dict(property=n['property'], reason=n['reason']) for n in NA]), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(NA), 'not applicable')
