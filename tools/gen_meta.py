#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from tools/props.py (one entry per property)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p.get("over", ["inputs", "histories"]), "text": p["quant"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                        "observe_at": ["the C API of libs/MeshKernelApi"], "hook_needed": None}}) + "\n")
checks = []
cfg = {}
for p in PROPS:
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    c = {"budget": p.get("budget", 240), "thorough_budget": p.get("thorough_budget", 1500)}
    for k in ("variant", "omp", "assumptions"):
        if k in p:
            c[k] = p[k]
    cfg[p["id"]] = c
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks: every check observes the unmodified library through its C API. Changes to /repo are 'fix:' commits only (known_findings.txt)."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
json.dump(cfg, open(os.path.join(HERE, "checks.json"), "w"), indent=1)

# DESIGN.md
text = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
parts = []
for p in PROPS:
    parts.append("### %s %s\n\n%s\n\n*Generated and judged:* %s\n\n*Beyond the tests:* %s\n" % (p["id"], p["title"], p["statement"], p["design"], p["why"]))
bugs = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
sd = os.path.join(HERE, "seeded")
caught = {}
cf = os.path.join(HERE, "tools", "caught.txt")
if os.path.exists(cf):
    for l in open(cf):
        a, b = l.strip().split(" ", 1)
        caught[a] = b
for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, b, "meta.json")))
    bugs.append("| %s | %s | %s: %s | %s |" % (b, m["property"], m["needs"], m["what_it_breaks"], caught.get(b, "?")))
open(os.path.join(HERE, "DESIGN.md"), "w").write(text.replace("@PROPS@", "\n".join(parts)).replace("@BUGS@", "\n".join(bugs)))
