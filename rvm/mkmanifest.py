"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rvm import env  # noqa: E402

NOTE = "held on the executions explored; nothing is claimed about inputs outside the generated strata"
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [],
    "not_applicable": [],
}
for line in open(os.path.join(env.VERIF, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(env.HERE, "props", i.lower() + ".py")):
        mod = importlib.import_module("rvm.props." + i.lower())
        m["checks"].append(
            {
                "property": i,
                "quick_cmd": f"./check {i}",
                "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                "evidence_file": f"evidence/{i}.json",
                "technique": "runtime monitoring: " + getattr(mod, "TECHNIQUE", "reference-model monitor over recorded executions"),
                "level": "exploration",
                "level_note": getattr(mod, "LEVEL_NOTE", NOTE),
            }
        )
    else:
        m["not_applicable"].append({"property": i, "reason": "its monitor is not built yet"})
if not m["not_applicable"] and "--keep" not in sys.argv:
    m["not_applicable"] = []
with open(os.path.join(env.VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
