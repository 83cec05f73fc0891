#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/specs.py and properties.jsonl."""
import json,sys,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,R+'/bin')
from specs import CHECKS
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
out=dict(version=1,setup_cmd='true',checks=[],not_applicable=[])
for p in props:
    i=p['id']
    if i not in CHECKS:
        out['not_applicable'].append(dict(property=i,reason='No check built yet: no driver observes executions of this part so far.'));continue
    c=CHECKS[i]
    out['checks'].append(dict(property=i,quick_cmd=f'python3 bin/check {i}',thorough_cmd=f'python3 bin/check {i} --thorough',
      evidence_file=f'evidence/{i}.json',
      technique=c.get('technique','runtime monitoring: the real code under randomised hostile workloads, ASan/UBSan instrumentation and an independent online oracle'),
      level='exploration',
      level_note=c.get('note','Decides every execution explored (see the evidence file for how many and of what kind), none beyond; trusts the compiler, the sanitizers, the reference implementation in the driver and, for C++ drivers, the library shims under shim/.')))
json.dump(out,open(R+'/MANIFEST.json','w'),indent=1)
assert not set(CHECKS)-{p['id'] for p in props}
print(len(out['checks']),'claimed',len(out['not_applicable']),'not')
