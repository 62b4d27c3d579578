#!/usr/bin/env python3
"""Generates MANIFEST.json: one entry per property that has a check in checks/, the others under not_applicable."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
TECH = {
 "C13": "ThreadSanitizer over multi-threaded stress programs (happens-before race monitoring)",
 "C30": "AddressSanitizer/UBSan monitoring of randomized and capacity-stress programs",
 "C11": "AddressSanitizer/UBSan monitoring of the tools under mutated, truncated and generated inputs, with an intact-prefix oracle",
}
NOTE = {}
ns = {}
p = os.path.join(V, "tools", "notes.py")
if os.path.exists(p):
    exec(open(p).read(), ns)
    TECH.update(ns.get("TECH", {})); NOTE.update(ns.get("NOTE", {})); NA.update(ns.get("NA", {}))
checks, na = [], []
for q in props:
    i = q["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, "runtime monitoring: model-based oracle over recorded executions, under AddressSanitizer and UBSan"),
            "level": "exploration",
            "level_note": NOTE.get(i, "Holds on the generated executions of this run (counts in the evidence file); trusts the driver's reference model, the sanitizer runtimes and the compiler.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for it yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds libcaliper and the tools from /repo's working tree with sanitizers into /verif/build (git-ignored), runs generated workloads, and judges what it observed. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
