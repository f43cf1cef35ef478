#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT WHAT: records a repaired defect (maintenance)."""
import json, os, sys
fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.json')
k = json.load(open(fn))
p, c, w = sys.argv[1:4]
k.append(dict(status='fixed', property=p, commit=c, what=w, line='fixed: property=%s %s %s' % (p, c, w)))
for e in k:
    if e['status'] == 'fixed':
        e['line'] = 'fixed: property=%s %s %s' % (e['property'], e['commit'], e['what'])
json.dump(k, open(fn, 'w'), indent=0)
