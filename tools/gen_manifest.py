#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ids=[json.loads(l)["id"] for l in open(H+"/properties.jsonl")]
HIST="runtime monitoring: generated hostile histories on the assembled application, online comparison of full state and balances with an independent reference model"
TECH={}
NOTE={}
base="Exploration: every step of every generated history is judged; nothing is said about histories not generated. Trusts the reference model (harness/mwmon/model.go, apply.go, rwmodel.go), the Cosmos SDK below the modules and the generator's reach. "
EXTRA=json.load(open(H+"/tools/claims.json"))
checks=[];na=[]
for i in ids:
    c=EXTRA.get(i,{})
    if c.get("na"):
        na.append({"property":i,"reason":c["na"]}); continue
    checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,"evidence_file":"evidence/%s.json"%i,
      "technique":c.get("technique",HIST),"level":"exploration","level_note":c.get("note",base+c.get("extra",""))})
m={"version":1,"setup_cmd":"tools/setup.sh","hooks":{"guard":"none","enable":"no hooks are needed: the monitors observe the application through its keepers, stores, message router, ABCI and query interfaces; they are compiled in through an overlay","source_commits":[]},
 "checks":checks,"not_applicable":na,"notes":"See DESIGN.md. Fixed defects and known findings: known-findings.txt."}
json.dump(m,open(H+"/MANIFEST.json","w"),indent=1)
print(len(checks),len(na))
