"""Writes /verif/MANIFEST.json from the registry and the level notes below."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst.registry import CHECKS, NOTES, NOT_APPLICABLE, TECHNIQUE  # noqa: E402

props = [json.loads(line)["id"] for line in open(os.path.join(ROOT, "properties.jsonl"))]
doc = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check.sh {p} quick",
            "thorough_cmd": f"./check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": TECHNIQUE[p],
            "level": "exploration",
            "level_note": NOTES[p],
        }
        for p in props
        if p in CHECKS
    ],
    "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")} for p in props if p not in CHECKS],
    "notes": "All checks run the real aiok8s modules of /repo's working tree on a virtual-time event loop; "
    "no hooks in /repo are needed. ./replay.sh FILE replays a reported violation.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
