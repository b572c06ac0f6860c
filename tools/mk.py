#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
PROPS.sort(key=lambda p: p['id'])

TRUST = ("Trusted: the naive reference in harness/ref and harness/props, the Go toolchain, and the pinned "
         "tensor library where the statement leaves a detail to it. ")

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['qtext']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'],
                              mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                              observe_at=p.get('observe', ['public API: node and value results, returned errors']),
                              hook_needed=None))
        f.write(json.dumps(d, ensure_ascii=False) + '\n')

checks = []
for p in PROPS:
    if p['id'] in NOT_APPLICABLE:
        continue
    checks.append(dict(property=p['id'],
                       quick_cmd='VERIF_TIER=quick bash ./check.sh ' + p['id'],
                       thorough_cmd='VERIF_TIER=thorough bash ./check.sh ' + p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=p['technique'], level='exploration',
                       level_note='Seeded random search with a fixed number of generated cases per tier; failures are shrunk to a replay file. '
                       + p['note'] + ' ' + TRUST + 'Says nothing about inputs outside the generated domain described in DESIGN.md.'))
m = dict(version=1, setup_cmd='bash ./setup.sh', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
         notes='No hooks in /repo: every check drives the exported API from a separate module (harness/) that replaces gorgonia.org/gorgonia with /repo. '
               'check.sh rebuilds the harness against /repo on every run. properties.jsonl and this file are generated by tools/mk.py.')
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
