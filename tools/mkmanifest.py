#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per plan; the other properties of
properties.jsonl go under not_applicable with the reason below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import plans
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = 'TLA+ specification checked with TLC; recorded executions of the real code validated against it'
NOTE = ('Bounded: the specification is model-checked exhaustively for small constants; the code is bound to it by '
        'validating recorded randomised executions (seeded) of a fresh build, with C assertions on, event by event. '
        'Trusts TLC, CPython and the recording driver.')
NA = {}
checks = [dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'],
               thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
               technique=plans.TECH.get(p['id'], TECH), level='model_checking',
               level_note=plans.NOTES.get(p['id'], NOTE)) for p in props if p['id'] in plans.PLANS]
na = [dict(property=p['id'], reason=NA.get(p['id'], 'The check for this property is not built yet.'))
      for p in props if p['id'] not in plans.PLANS]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: everything is observed through the public and module-level Python interface.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
