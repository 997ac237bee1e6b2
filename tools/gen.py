#!/usr/bin/env python3
"""writes properties.jsonl, MANIFEST.json and DESIGN.md"""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(D)
sys.path[:0] = [D, V]
import runpy
from props import P
from checks import CHECKS
runpy.run_path(D + "/catches.py")
COST = json.load(open(D + "/cost.json"))
with open(V + "/properties.jsonl", "w") as f:
    for i, q in sorted(P.items()):
        a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]], "observe_at": ["public API of the filter classes"], "hook_needed": None}
        if q["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in q["state"]]
        assert len(q["title"]) <= 80, (i, len(q["title"]))
        f.write(json.dumps({"id": i, "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"], "anchors": a}) + "\n")
man = {"version": 1, "setup_cmd": "python3 -c 'import checks' && g++ --version && clang++ --version", "checks": [], "not_applicable": [],
       "notes": "No hooks in /repo. run.py builds the library, class registries and one explorer per property from /repo's working tree in a scratch directory and runs it in 8 shards."}
for i, q in sorted(P.items()):
    if i not in CHECKS: man["not_applicable"].append({"property": i, "reason": "no check yet"}); continue
    man["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
      "evidence_file": "evidence/%s.json" % i, "technique": q["tech"], "level": CHECKS[i]["level"], "level_note": q["note"]})
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
with open(V + "/DESIGN.md", "w") as f:
    f.write(open(D + "/design_head.md").read())
    f.write("\n## Properties and how each is decided\n\n")
    for i, q in sorted(P.items()):
        c = CHECKS[i]
        f.write("### %s %s\n\n%s\n\n" % (i, q["title"], q["statement"]))
        f.write("* Enumerated (%s): %s.\n* Method: %s (`harness/%s`).\n* Assurance, oracle, limits: %s\n* Bounds: quick - %s; thorough - %s. Cost: %s.\n* Beyond the tests: %s\n\n" % (
            ", ".join(q["over"]), q["text"], q["tech"], c["src"][0], q["note"], q["quick"], q["thorough"], COST.get(i, "seconds"), q["why"]))
    f.write(open(D + "/design_tail.md").read() + open(D + "/catches.md").read())
print(len(man["checks"]), "checks")
