#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
CLAIMED = open(os.path.join(root, "tools", "claimed.txt")).read().split()
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
 "C23": "a pure function of its pixels: no schedule, fault, clock, I/O or interleaving in it for a simulator to control",
 "C24": "pure functions and assertions on their arguments: nothing for a simulator to schedule or make fail",
}
checks = []
for p in props:
    if p["id"] in CLAIMED:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "deterministic simulation with fault injection: seeded search over delivery schedules, faults, call histories and inputs against an independent reference model",
            "level": "exploration",
            "level_note": "Seeded sampling, not proof: the property held on every simulated run of the batch (counts in the evidence). The real crate, weezl, color_quant and std's BufReader run; reader, sink, allocator, entropy and thread schedule are simulated. Trusted: the harness's own GIF serialiser, strict parser, LZW codec and comparison code.",
        })
na = [{"property": p["id"], "reason": NA.get(p["id"], "no check built yet")} for p in props if p["id"] not in CLAIMED]
m = {
 "version": 1,
 "setup_cmd": "./build.sh",
 "checks": checks,
 "not_applicable": na,
 "notes": "No hooks were needed in /repo: Read and Write are its I/O seams, the global allocator, getrandom and thread switching are supplied by the simulator process. /repo carries only fix: commits. VERIF_SEED selects the batch of seeds; VERIF_TIER=thorough runs 25 times as many. replay.sh FILE replays a violation.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
