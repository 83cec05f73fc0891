#!/usr/bin/env python3
"""addfixed.py ID commit 'what failed' : record a repaired defect in known_findings.json"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
d.setdefault('fixed', [])
d['fixed'].append('fixed: property=%s %s %s' % tuple(sys.argv[1:4]))
d['fixed'] = list(dict.fromkeys(d['fixed']))
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
