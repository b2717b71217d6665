#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection (seeded schedules and faults over the real code)",
            "level": "exploration",
            "level_note": PROPS[i].get("note", "") + "Seeded random search over schedules, network, storage and crash faults of the real code on a patched Go runtime: it finds violations, it does not prove their absence. Trusts the simulated network, peers and storage to behave as real ones can.",
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/check.py --setup",
    "hooks": {
        "guard": "faketime",
        "enable": "go build -tags faketime -overlay <generated by sim/goroot/mkoverlay.py>: the overlay patches the Go runtime and standard library (never /repo's sources) and adds /verif/sim/harness as package internal/verifsim; no hook is committed in /repo",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. Replays: python3 tools/check.py --replay FILE.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
