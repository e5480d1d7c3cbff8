#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props_src.py"""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
ns = {}
exec(open(os.path.join(here, "props_src.py")).read(), ns)
P, NA, ASSUME = ns["PROPS"], ns["NOT_APPLICABLE"], ns.get("ASSUME", {})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
    for p in ns.get("NA_PROPS", []):
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
built = json.load(open(os.path.join(V, "harness", "props.json")))
for p in P:
    if p["id"] in built:
        built[p["id"]]["assumptions"] = p.get("assumptions", [])
        built[p["id"]]["level"] = "model_checking"
json.dump(built, open(os.path.join(V, "harness", "props.json"), "w"), indent=1)
checks = []
for p in P:
    if p["id"] not in built:
        print("no harness yet:", p["id"])
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["level_note"],
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NA,
     "notes": "Every check builds its harness from /repo's working tree (go test -c with an overlay, no file is written in /repo) and enumerates its bounded space on the real code; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
