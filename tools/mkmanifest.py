#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and harness/props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(V + "/harness/props.json"))
checks, na = [], []
for x in map(json.loads, open(V + "/properties.jsonl")):
    i = x["id"]
    if i not in P:
        na.append({"property": i, "reason": P.get("_na", {}).get(i, "no check has been built for it yet")}); continue
    c = P[i]
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json", "technique": c.get("technique", "property-based testing: generated cases against a reference model, coverage-guided, shrunk to a replay"),
        "level": "exploration", "level_note": c.get("note", "Search over generated inputs, not a proof: says the property held on every generated case of the run; trusts the reference model in /verif/harness, the compiler's sanitizers and the system-call stand-ins in vf_sys.cc.")})
m = {"version": 1, "setup_cmd": "python3 -m py_compile run.py && mkdir -p build evidence replays", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the system calls of the library's objects are redirected with objcopy at build time (run.py), so there is no guard. 'fix:' commits in /repo repair genuine defects; see known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
