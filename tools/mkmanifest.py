#!/usr/bin/env python3-vt
# Writes /verif/MANIFEST.json: a check for every property with a harness file, the rest not applicable.
import json,glob,os,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have={os.path.basename(f)[:3].upper() for f in glob.glob('/verif/harness/**/c[0-9][0-9]_*.go',recursive=True)}
NOTE=json.load(open('/verif/tools/notes.json'))
NA=NOTE.get('na',{})
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        n=NOTE['checks'].get(i,'')
        checks.append(dict(property=i,quick_cmd=f'./check.sh {i} quick',thorough_cmd=f'./check.sh {i} thorough',
          evidence_file=f'evidence/{i}.json',
          technique='bounded symbolic execution of the Go SSA of the real functions, assertions decided by SMT (z3/cvc5, bit-vector and exact integer encodings), counterexamples replayed natively',
          level='model_checking',
          level_note=(n+' ' if n else '')+'Holds for every input within the bounds listed in the evidence file, nothing outside them; trusts the SSA interpreter (cross-checked natively on explored paths), the SMT solvers, and the listed assumptions.'))
    else:
        na.append(dict(property=i,reason=NA.get(i,'no check built yet')))
json.dump(dict(version=1,setup_cmd='./build.sh',checks=checks,not_applicable=na,
  notes='All checks are run by /verif/engine (gosym), built offline from source; /repo is read through an overlay and never modified.'),
  open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'n/a')
