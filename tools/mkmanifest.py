#!/usr/bin/env python3
"""Writes MANIFEST.json (run: python3 tools/mkmanifest.py). A property is claimed
when contracts/<id>/ holds harnesses; every other one is listed with its reason."""
import json, os, glob
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
NA={
 "C32":"ordering across publisher and subscriber goroutines is a schedule property: govc verifies one goroutine at a time (no resource invariants for channels or mutexes), so no contract within its reach expresses it",
 "C33":"bounded-time wake-up of a waiting request is a liveness property over schedules; sequential contracts cannot express it",
 "C34":"exactly-once teardown under every interleaving of disconnects is a concurrency property; the sequential verifier has no thread-modular reasoning",
 "C35":"the session-description code is built on fmt, strings.Split, strconv and base64 text processing, which the verifier's string theory cannot unfold for texts of unbounded length",
}
NOTE={}
try:
    NOTE=json.load(open(os.path.join(V,"tools","level_notes.json")))
except FileNotFoundError: pass
BASE=("Deductive: every obligation (postconditions, loop invariants, absence of run-time panics) generated from /repo's current source is discharged by an SMT solver for all inputs. "
 "Trusted: the govc translation of Go SSA to verification conditions (cross-checked natively), z3/cvc5, the Go SSA builder. ")
checks=[];na=[]
for p in props:
    i=p["id"]
    if glob.glob(os.path.join(V,"contracts",i,"*","*.go")) and i not in NA:
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,
          "technique":"contract-based deductive verification of the Go source (weakest-precondition VCs from SSA, SMT-discharged)",
          "level":"proof","level_note":BASE+NOTE.get(i,"")})
    else:
        na.append({"property":i,"reason":NA.get(i,"no contract for this property has been completed; not claimed")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
   "notes":"govc (engine/) is the verifier; contracts/<id>/ hold the specifications, overlaid next to the code of /repo at verification time. /repo carries no hooks."}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"claimed",len(na),"not")
