#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from props import PROPS
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
T={'exploration':'model checking by explicit exhaustive enumeration: every input/history inside the bounds is executed on the real code and compared with a reference model',
   'fault_enumeration':'model checking by exhaustive fault placement: every placement of faults inside the bounds is executed on the real code in a simulated environment and compared with a reference model',
   'model_checking':'stateless model checking of the real code: exhaustive exploration of environment histories with bounded deviations, compared step by step with a reference model'}
N={'exploration':'Decides the property for every case inside the stated bounds by running the real code on all of them; outside the bounds nothing is claimed. Trusts the reference model in harness/ and the compiler.',
   'fault_enumeration':'Decides the property for every placement of faults inside the stated bounds; trusts the environment model (harness/env.c) and the reference model.',
   'model_checking':'Decides the property for every environment history inside the stated bounds; trusts the environment model (harness/env.c) and the reference model.'}
checks=[]
for i in ids:
    if i in PROPS:
        p=PROPS[i]
        checks.append(dict(property=i,quick_cmd='python3 check.py %s quick'%i,thorough_cmd='python3 check.py %s thorough'%i,technique=p.get('technique') or T[p['level']],level=p['level'],level_note=N[p['level']]+' Bounds (quick): '+p['bounds']['quick'],evidence_file='evidence/%s.json'%i))
na=[dict(property=i,reason='check not built yet') for i in ids if i not in PROPS]
m=dict(version=1,setup_cmd='python3 check.py --setup',checks=checks,
  hooks=dict(guard='none',enable='No source hooks: the checks compile the unmodified sources of /repo and redirect system calls and allocation with objcopy --redefine-sym on the object files.',source_commits=[]),
  not_applicable=na,notes='See DESIGN.md. Findings and repairs: known_findings.txt.')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); print(len(checks),'checks',len(na),'n/a')
