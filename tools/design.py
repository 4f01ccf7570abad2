#!/usr/bin/env python3
"""Writes DESIGN.md: the text of design_head.md, the planted bugs, and one section per property made
from properties.jsonl and the checkers' own lists (run after the checks, so that evidence is there)."""
import glob
import json
import os
import subprocess

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
out = [open("tools/design_head.md").read().rstrip() + "\n\n"]
caught = {}
if os.path.exists("tools/caught.json"):
    caught = json.load(open("tools/caught.json"))
for m in sorted(glob.glob("seeded/*/meta.json")):
    sid = m.split("/")[1]
    v = json.load(open(m))
    out.append("* **%s** (%s): needs %s; %s. Reported by: %s.\n" % (
        sid, v["property"], v["needs"], v["what_it_breaks"], caught.get(sid, "not yet run")))
out.append("\n")
tail = "tools/design_tail.md"
if os.path.exists(tail):
    out.append(open(tail).read().rstrip() + "\n\n")
lists = {}
for binary in ("target/debug/mc", "target/debug/mcfull"):
    if os.path.exists(binary):
        for line in subprocess.check_output([binary, "list"], text=True).splitlines():
            p = json.loads(line)
            lists[p["id"]] = p
out.append("## The properties one by one\n\nStates, executions and time are those of one quick run in this sandbox.\n\n")
for line in open("properties.jsonl"):
    q = json.loads(line)
    p = lists.get(q["id"])
    out.append("### %s %s\n\n" % (q["id"], q["title"]))
    if not p:
        out.append("No check yet.\n\n")
        continue
    out.append("*Decided by*: %s.\n\n" % p["rule"])
    out.append("*Why tests cannot settle it*: %s\n\n" % q["why_tests_cant"])
    if p["assumptions"]:
        out.append("*Assumes*: %s.\n\n" % "; ".join(p["assumptions"]))
    out.append("| family | bound |\n|---|---|\n")
    for n, b in p["families"]:
        out.append("| %s | %s |\n" % (n, b.replace("|", "/")))
    ev = "evidence/%s.json" % q["id"]
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e["coverage"]
        if e["tier"] == "quick":
            out.append("\nCost (quick): %d executions, %d states, %d calls, %.1f s.\n" % (
                c["traces_validated_against_impl"], c["states"], c["transitions"], e["wall_s"]))
    out.append("\n")
open("DESIGN.md", "w").write("".join(out))
