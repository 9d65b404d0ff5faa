#!/usr/bin/env python3
"""Writes MANIFEST.json from ndv/props.py (claimed) and the reasons below (not claimed)."""
import json,os,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,R+'/ndv')
import props
NA={'C23':'A bound on elapsed time (about a second) and progress of a background thread: contracts of partial correctness over the sequential semantics of each function express neither elapsed time nor liveness.',
'C24':'Linearizability quantifies over interleavings of several threads; the function contracts used here are sequential, with lock discipline (C21) and the context protocol (C22) as ghost state. Deriving linearizability from them needs a concurrent program logic that no installed verifier offers for C++.'}
props_all=[json.loads(l)['id'] for l in open(R+'/properties.jsonl')]
checks=[]
for p in props_all:
    P=props.PROPS.get(p)
    if P is None: continue
    checks.append(dict(property=p,quick_cmd=f'python3 check.py {p} quick',thorough_cmd=f'python3 check.py {p} thorough',evidence_file=f'evidence/{p}.json',
      technique='function contracts on the real code (compiled to LLVM IR), discharged by SMT',level=P.get('level','proof'),
      level_note=P.get('note','Every obligation of the listed contracts is discharged for all inputs, without bound; partial correctness; trusts clang, the generator in ndv/, z3 and cvc5, and the assumed contracts listed in the evidence.')))
na=[dict(property=p,reason=NA.get(p,props.WHY.get(p,'Contracts for this property are not discharged yet.'))) for p in props_all if p not in props.PROPS]
json.dump(dict(version=1,setup_cmd='python3 tools/setup.py',checks=checks,not_applicable=na,
  notes='No hooks in /repo: contracts attach to the compiled functions by name. Repairs of genuine defects are the fix: commits, listed in known-findings.txt.'),open(R+'/MANIFEST.json','w'),indent=1)
