#!/usr/bin/env python3
"""finding.py fixed|known ID PROPERTY HARNESS COMMIT-or-LABEL WHAT [AT]: append an entry to known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p)) if os.path.exists(p) else {'findings': []}
st, i, prop, h, x, what = sys.argv[1:7]
e = {'id': i, 'status': st, 'property': prop, 'harness': h, 'what': what}
if st == 'fixed': e['commit'] = x; e['entry'] = f'fixed: property={prop} {x} {what}'
else:
    e['label'] = x
    if len(sys.argv) > 7: e['at'] = sys.argv[7]
d['findings'] = [f for f in d['findings'] if f['id'] != i] + [e]
json.dump(d, open(p, 'w'), indent=1)
