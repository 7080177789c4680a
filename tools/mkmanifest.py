import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from props import PROPS, NOTES
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
        technique=p.get("technique", "TLA+ specification checked with TLC; recorded steps of the real code validated against it (trace conformance)"),
        level=p.get("level", "model_checking"), level_note=NOTES.get(i, NOTES["*"])))
m = dict(version=1, setup_cmd="python3 setup.py_" if False else "bash setup.sh", checks=checks,
  not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in PROPS],
  notes="No hooks in /repo: the library is headers only and every public call's outcome is observable. Defects found are repaired by fix: commits and listed in known_findings.txt.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
