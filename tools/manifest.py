#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a harness (python3 tools/manifest.py)."""
import json, os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,'..')
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
NOTE=("Every point of each listed finite space and every operation sequence up to the listed depth is executed on the "
 "real code built from /repo (no sampling); the oracle is an independent reference model written in the harness. "
 "Values outside the alphabets and sequences beyond the depth are not covered. ")
NOTES={}
exec(open(os.path.join(here,'notes.py')).read()) if os.path.exists(os.path.join(here,'notes.py')) else None
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(os.path.join(root,'mc/src/bin',i.lower()+'.rs')):
        checks.append(dict(property=i,quick_cmd=f"bash run.sh {i}",thorough_cmd=f"VERIF_TIER=thorough bash run.sh {i}",
          technique="explicit-state / bounded exhaustive model checking of the implementation against a reference model",
          level="model_checking",level_note=NOTE+NOTES.get(i,"")))
    else:
        na.append(dict(property=i,reason="no harness built yet"))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na)
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'checks',len(na),'unclaimed')
