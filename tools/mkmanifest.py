#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the list of claimed properties
import json,sys
CLAIMED=open('/verif/tools/claimed.txt').read().split()
NOTES={}
try: NOTES=json.load(open('/verif/tools/notes.json'))
except FileNotFoundError: pass
BOUND={}
for l in open('/verif/bounded.txt'):
    f=[x.strip() for x in l.split('|')]
    if len(f)>=4: BOUND[f[0]]=f
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,
          "evidence_file":"evidence/%s.json"%i,
          "technique":"contract-based deductive verification of the Go source (VC generation from go/ssa, discharged by SMT)",
          "level":"other" if i in BOUND else "proof",
          "level_note":("Partly bounded, partly proved. Bounded stand-in (random search, not a proof) for: %s (%s). For the rest: "%(BOUND[i][2],BOUND[i][3]) if i in BOUND else "")+NOTES.get(i,"Every obligation generated from the current source for this property's contracts is discharged for all inputs; trusted: go/ssa translation and the gover encoder, the SMT solvers, contracts of library functions listed in the evidence, mathematical integers, partial correctness.")})
    else:
        na.append({"property":i,"reason":NOTES.get(i,"contracts for this property are not finished")})
m={"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: contracts live in /verif/specs and are checked against the code of /repo as it is. Known findings and fixed defects: known-findings.txt."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
