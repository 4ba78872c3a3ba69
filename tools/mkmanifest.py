#!/opt/venv/bin/python
"""Writes /verif/MANIFEST.json from the families and the property list."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import families
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
NOTE = ("Design models explored exhaustively by TLC within the stated bounds; every recorded execution of the real "
        "command line is judged by the TLA+ specification (all clauses of the property on all recorded artefacts). "
        "Assurance is bounded by the worlds generated; trusted: the specification, the ELF/zip/JSON projection, TLC.")
for p in props:
    pid = p["id"]
    if pid in families.FAMILIES:
        f = families.FAMILIES[pid]
        checks.append({"property": pid, "quick_cmd": f"./check {pid} --tier quick",
                       "thorough_cmd": f"./check {pid} --tier thorough", "evidence_file": f"evidence/{pid}.json",
                       "technique": getattr(f, "technique", "") or "TLA+ specification (TLC) with conformance checking of recorded executions",
                       "level": f.level, "level_note": NOTE})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
doc = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
       "notes": "TLA+ (TLC). No hooks in /repo: everything is observed from outside. Fixes are the 'fix:' commits listed in known_findings.json."}
json.dump(doc, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
