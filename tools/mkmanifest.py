"""Writes MANIFEST.json from the list of built checks."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="TLA+ specification checked with TLC; recorded traces of the real code validated against it"
NOTE={}
exec(open(os.path.join(V,"tools","levels.py")).read())
props=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
m=dict(version=1,setup_cmd="true",
 hooks=dict(guard="VERIF_ENERGON_HOOKS",enable="no hooks are needed: the checks import /repo/src directly and observe it from outside",source_commits=[]),
 checks=[],not_applicable=[],notes="The checks run with /opt/venv/bin/python, import /repo/src and need no build. TLC judges all traces.")
for p in props:
    if p in BUILT:
        m["checks"].append(dict(property=p,quick_cmd=f"./check.sh {p} quick",thorough_cmd=f"./check.sh {p} thorough",
          technique=TECH.get(p,T),level="model_checking",level_note=BUILT[p],evidence_file=f"evidence/{p}.json"))
    else:
        m["not_applicable"].append(dict(property=p,reason=NA.get(p,"The check is not built yet.")))
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(m["checks"]),"checks",[x["property"] for x in m["not_applicable"]])
