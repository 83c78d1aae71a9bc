#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property the simulator registers is claimed."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
simbin = sys.argv[1]
have = sorted({l.split()[0] for l in subprocess.check_output([simbin, "list"], text=True).splitlines()})
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
notes = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
generic = "Seeded search over simulated executions of the real library code against an independent reference model; a quiet run is evidence for the explored seeds, not a proof. Trusts the reference models, the tolerances stated in DESIGN.md, and the Go toolchain."
checks = [dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
               technique="deterministic simulation with fault injection: seeded search over schedules, faults and histories",
               level="exploration", level_note=notes.get(i, "") + (" " if i in notes else "") + generic) for i in ids if i in have]
m = dict(version=1, setup_cmd="./build.sh",
         hooks=dict(guard="none in /repo: a build overlay of the Go standard library's math/rand and math/rand/v2 (build.sh) is the only seam", enable="go build -overlay (build.sh)", source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=i, reason="no simulated check built yet") for i in ids if i not in have],
         notes="See DESIGN.md. Replay a reported violation with: bin/<ID>/sim replay -file <path>.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
