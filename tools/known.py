#!/usr/bin/env python3
"""writes known-findings.json: the open findings (tools/known_open.json) and the
repaired ones (every "fix:" commit of /repo, with the property of tools/known_fixed.txt)"""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
out = json.load(open(os.path.join(here, "known_open.json")))
props = {}
for l in open(os.path.join(here, "known_fixed.txt")):
    p, s = l.rstrip("\n").split(" ", 1)
    props[s] = p
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    if s not in props:
        print("no property for", h, s)
        continue
    out.append({"property": props[s], "status": "fixed", "what": "fixed: property=%s %s %s" % (props[s], h, s)})
json.dump(out, open(os.path.join(os.path.dirname(here), "known-findings.json"), "w"), indent=1)
print(len(out), "entries")
