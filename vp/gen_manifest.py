#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vp"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks = []
for i in ids:
    if i not in PROPS: continue
    c = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 vp/check.py {i} --tier quick",
        "thorough_cmd": f"python3 vp/check.py {i} --tier thorough",
        "technique": c.get("technique", "runtime monitoring: model-differential monitor over random histories under AddressSanitizer/UBSan, allocation-balance monitor, valgrind memcheck build"),
        "level": c.get("level", "exploration"),
        "level_note": c.get("level_note", "Held on the executions of this run only (counts in the evidence file); trusts the compiler, the sanitizer runtimes and the reference model in harness/."),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", 
     "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "monitor not built yet")} for i in ids if i not in PROPS],
     "notes": "One runner (vp/check.py) compiles the drivers in harness/ against /repo/include and judges their executions; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
