#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the contracts present"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
WIP = set()
NA = {'C25': 'liveness: partial-correctness contracts say what holds when a call returns, not that it returns; awaiting without a bound is a termination-of-waiting question about the peer and the event loop that no contract on these functions can express (known to be false when the connection is lost, see DESIGN.md)'}
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
    d = json.loads(l)
    p = d['id']
    if os.path.exists(os.path.join(here, 'contracts', p.lower() + '.py')) and p not in NA and p not in WIP:
        checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                           technique='contract-based deductive verification: pre/postconditions and loop invariants on the functions extracted from /repo on every run, obligations discharged by z3/cvc5 (pyvc)',
                           level='proof', level_note=NOTES.get(p, 'all inputs, all iterations; library behaviour per the models listed in DESIGN.md; CPython cross-check not counted')))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'contracts not finished yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='Checks instrument the functions of /repo in memory on each run; nothing is built or cached. No hooks in /repo.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
