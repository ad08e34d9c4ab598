"""Writes /verif/MANIFEST.json from the property modules."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
NOT = {}
checks = []
na = []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(ROOT, "nbmc", "props", pid.lower() + ".py")):
        na.append({"property": pid, "reason": NOT.get(pid, "no check built yet")})
        continue
    mod = importlib.import_module("nbmc.props." + pid.lower())
    checks.append(
        {
            "property": pid,
            "quick_cmd": "./check check %s" % pid,
            "thorough_cmd": "./check check %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": mod.TECHNIQUE,
            "level": getattr(mod, "LEVEL", "model_checking"),
            "level_note": mod.NOTE,
        }
    )
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: nbkode's own NBKODE_NONUMBA=1 mode runs the unmodified sources "
    "uncompiled, where right-hand sides and events are the environment the explorer "
    "controls; compiled replays use the default mode. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
