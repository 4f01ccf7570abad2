#!/usr/bin/env python3
"""Writes MANIFEST.json from the checkers' own lists (run after `bash run.sh build`)."""
import json
import os
import subprocess

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
checks = []
for binary in ("target/debug/mc", "target/debug/mcfull"):
    if not os.path.exists(binary):
        continue
    for line in subprocess.check_output([binary, "list"], text=True).splitlines():
        p = json.loads(line)
        note = ("Every execution of the checker's drivers against the real code, within their bounds: "
                + "; ".join("%s (%s)" % (n, b) for n, b in p["families"]) + ".")
        if p["assumptions"]:
            note += " Assumes: " + "; ".join(p["assumptions"]) + "."
        if binary.endswith("mcfull"):
            note += " gribberish and readap are replaced by stand-ins written for this check (full/stubs)."
        checks.append({
            "property": p["id"],
            "quick_cmd": "bash run.sh " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"],
            "technique": "stateless model checking: exhaustive enumeration of choice sequences run on the real code, "
                         "compared with an independent reference model at every step",
            "level": p["level"],
            "level_note": note,
        })
claimed = {c["property"] for c in checks}
missing = []
for line in open("properties.jsonl"):
    q = json.loads(line)
    if q["id"] not in claimed:
        missing.append({"property": q["id"], "reason": "no check has been built for it yet"})
checks.sort(key=lambda c: c["property"])
m = {"version": 1, "setup_cmd": "bash run.sh build", "checks": checks, "not_applicable": missing,
     "notes": "No hooks: everything is reached through the public interface. Families and bounds are printed by every run and "
              "written to the evidence; known_findings.txt lists findings and repairs."}
open("MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", [x["property"] for x in missing])
