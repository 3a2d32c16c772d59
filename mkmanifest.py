#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json,sys,os
H=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,H)
from claims import CLAIMS,NA
props=[json.loads(l)['id'] for l in open(H+'/properties.jsonl')]
checks=[]
for p in props:
    if p in CLAIMS:
        c=CLAIMS[p]
        checks.append(dict(property=p,quick_cmd='python3-vt check.py %s'%p,thorough_cmd='python3-vt check.py %s --thorough'%p,evidence_file='evidence/%s.json'%p,
            technique=c.get('technique','contract-based deductive verification: contracts on the real functions, obligations generated from the LLVM IR of the current tree and discharged by z3; bounded replay of unproved functions and of failed obligations'),level=c.get('level','proof'),level_note=c['note']))
na=[dict(property=p,reason=NA.get(p,'check under construction: no contract of this property is discharged yet')) for p in props if p not in CLAIMS]
json.dump(dict(version=1,setup_cmd='python3-vt irvc/build.py --setup',checks=checks,not_applicable=na,notes='No hooks in /repo: contracts live in /verif/irvc/specs and are bound to the real functions by their mangled names on every run.'),open(H+'/MANIFEST.json','w'),indent=1)
