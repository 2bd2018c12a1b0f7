#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json,os,subprocess,sys
here=os.path.dirname(os.path.abspath(__file__))
root=os.path.dirname(here)
lines=subprocess.check_output([sys.executable,here+"/props.py"],text=True)
open(root+"/properties.jsonl","w").write(lines)
props=[json.loads(l) for l in lines.splitlines()]
NA={}
NOTES={}
exec(open(here+"/manifest_notes.py").read())
ids=[x["id"] for x in props]
assert len(set(ids))==len(ids)
for x in props:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
checks=[]
for x in props:
    i=x["id"]
    if i in NA: continue
    assert os.path.isdir(root+"/harness/"+i.lower()),i
    checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
      "technique":"symbolic execution of the Go SSA of the real code, z3 decides every assertion; counterexamples are replayed natively",
      "level":"model_checking",
      "level_note":"Every value within the bounds ("+x["quantifier"]["text"]+"). "+NOTES.get(i,"")+" Trusted: the engine's semantics of Go SSA (validated per run against native executions of sampled paths), z3, the summaries of the standard library listed in DESIGN.md."})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"No hooks in /repo: the harnesses in /verif/harness enter through a build overlay. known findings and fixes: KNOWN_FINDINGS.txt"}
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(NA),"not applicable")
