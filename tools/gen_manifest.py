#!/usr/bin/env python3
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from checks import CHECKS
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
NA={}
m=dict(version=1,setup_cmd="python3 run.py --setup",checks=[],not_applicable=[],
 notes="Bounded exhaustive explicit-state exploration of the real code in lockstep with independently written reference models; see DESIGN.md.")
for p in props:
    i=p["id"]
    if i in CHECKS:
        k=CHECKS[i]
        m["checks"].append(dict(property=i,quick_cmd="python3 run.py %s"%i,thorough_cmd="python3 run.py %s --tier thorough"%i,evidence_file="evidence/%s.json"%i,
          technique="model checking: exhaustive bounded explicit-state exploration of the compiled real code, every scenario compared step by step with a reference model",
          level=k["level"],level_note=k.get("note",k["rule"])))
    else: m["not_applicable"].append(dict(property=i,reason=NA.get(i,"check not built yet")))
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
P=None
