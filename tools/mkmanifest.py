"""Regenerate MANIFEST.json from the drivers (TECHNIQUE / LEVEL_NOTE / BOUNDS attributes)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import core  # noqa: E402

core.load_target()
checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if not os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        missing.append({"property": pid, "reason": "check not built yet (work in progress)"})
        continue
    m = importlib.import_module("checks." + pid.lower())
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"python3 run.py {pid}",
            "thorough_cmd": f"python3 run.py {pid} --thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": m.TECHNIQUE,
            "level": m.LEVEL,
            "level_note": m.LEVEL_NOTE,
        }
    )
out = {
    "version": 1,
    "setup_cmd": "python3 -c 'import sys; sys.exit(sys.version_info < (3, 8))'",
    "checks": checks,
    "not_applicable": missing,
    "notes": "Bounded exhaustive model checking of the real implementation against executable reference models; "
    "see DESIGN.md. The library needs no hooks; checks import /repo's working tree directly (pure Python).",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
    json.dump(out, fd, indent=1)
    fd.write("\n")
