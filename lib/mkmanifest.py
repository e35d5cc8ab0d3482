#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/checks.py"""
import json
import os
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line)["id"] for line in open(os.path.join(V, "properties.jsonl"))]
checks = []
for pid, c in sorted(CHECKS.items()):
    assert pid in props
    checks.append(dict(property=pid, quick_cmd=f"./check {pid} quick", thorough_cmd=f"./check {pid} thorough",
                       technique=c["technique"], level=c["level"], level_note=c["note"]))
m = dict(version=1, setup_cmd="./check --setup",
         hooks=dict(guard="ARKI_VERIF", enable="lib/build.py compiles /repo's sources with -DARKI_VERIF; no commit "
                    "uses the guard: the monitors interpose libc calls and use public interfaces", source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=p, reason="its monitor is still being built") for p in props if p not in CHECKS],
         notes="See DESIGN.md. Checks build /repo's working tree below build/ (ignored by git) with ccache and run "
               "the workloads in a scratch directory in /dev/shm.")
with open(os.path.join(V, "MANIFEST.json"), "w") as fd:
    json.dump(m, fd, indent=1)
    fd.write("\n")
print(len(checks), "claimed", len(m["not_applicable"]), "not")
