#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed properties.
import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claimed={}
exec(open('/verif/claimed.py').read())
hook=subprocess.run("git -C /repo log --format=%H --grep='^sim:' --reverse",shell=True,capture_output=True,text=True).stdout.split()
checks=[]
for p in props:
    if p['id'] in claimed:
        c=claimed[p['id']]
        checks.append({"property":p['id'],"quick_cmd":"./check.sh %s quick"%p['id'],"thorough_cmd":"./check.sh %s thorough"%p['id'],"evidence_file":"evidence/%s.json"%p['id'],
          "technique":"deterministic simulation with fault injection: "+c[0],"level":"exploration","level_note":c[1]})
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"NULLC_SIM_HOOKS","enable":"the simulator's Makefile compiles /repo's sources with -DNULLC_SIM_HOOKS into /verif/build","source_commits":hook},
 "checks":checks,"not_applicable":[{"property":p['id'],"reason":na.get(p['id'],"not claimed yet: no simulation scenario exists for it")} for p in props if p['id'] not in claimed],
 "notes":"DESIGN.md describes the simulator, the oracles, the findings and the planted bugs."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
