#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p['id'] not in PLAN:
        continue
    mods = sorted({m['mod'] for m in PLAN[p['id']].get('mc', []) + PLAN[p['id']].get('mc_thorough', [])})
    vs = sorted({g['variant'] for g in PLAN[p['id']]['gen']})
    checks.append(dict(
        property=p['id'], quick_cmd='python3 bin/check.py ' + p['id'], thorough_cmd='python3 bin/check.py ' + p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique='TLA+ specification checked with TLC (%s), bound to the library by replaying TLC-generated and random call sequences and validating every recorded call against the specification' % ', '.join('spec/%s.tla' % m for m in mods),
        level='model_checking',
        level_note='Exhaustive within small bounds on the specification; sampled but deep on the implementation (builds: %s): every recorded call, its outputs, statuses, stored bytes, printed output and way of ending must be a step of the specification. Assumes the recording driver is truthful and that the check\'s own build of the sources stands for the library.' % ', '.join(vs)))
m = dict(version=1, setup_cmd='python3 bin/setup.py', hooks=dict(guard='none', enable='no hooks: the public interface shows all the state that is needed', source_commits=[]),
         checks=checks, not_applicable=[dict(property=p['id'], reason='no check yet') for p in props if p['id'] not in PLAN],
         notes='VERIF_TIER=thorough explores deeper; known-findings.txt lists the defects repaired in /repo; bin/check.py --replay FILE repeats a reported violation.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
