#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl (development)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check builds its own harness together with /repo's current tree (no hooks in /repo are needed).",
}
for p in props:
    c = CHECKS.get(p)
    if not c:
        man["not_applicable"].append({"property": p, "reason": "machinery not built yet"})
        continue
    man["checks"].append({
        "property": p,
        "quick_cmd": f"python3 check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
        "technique": c.get("technique", "property-based testing: generated cases against a reference model"),
        "level": "exploration",
        "level_note": c.get("level_note") or
        "Randomised search with shrinking: no violation in the generated cases counted in the evidence, not a proof. "
        "Assumes: " + "; ".join(c.get("assumptions", [])) + ".",
    })
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
