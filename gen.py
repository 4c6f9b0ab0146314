#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from propdefs.py and props.py."""
import json
from propdefs import D
from props import PROPS

NA = []
with open("properties.jsonl", "w") as f:
    for p in D:
        q = {k: v for k, v in p.items() if k != "note"}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
checks = []
for p in D:
    if p["id"] not in PROPS:
        NA.append(dict(property=p["id"], reason=p["note"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
                       technique="deterministic simulation with fault injection (seeded schedules and faults, model oracle)", level="exploration",
                       level_note=p["note"] + " Seeded sampling, not exhaustive; sequentially consistent interleavings; simulated Linux kernel."))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=NA,
         notes="No hooks in /repo: bfs's own sources are compiled unmodified and their libc symbols are redirected to the simulated kernel at link time. Commits in /repo are fixes only; see known-findings.json.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
