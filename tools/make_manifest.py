"""Writes /verif/MANIFEST.json from the check modules and properties.jsonl."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from mc import core  # noqa: E402,F401  (puts the implementation on the path)

NOT_APPLICABLE = {}

checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    path = os.path.join(ROOT, "mc", "checks", pid.lower() + ".py")
    if pid in NOT_APPLICABLE or not os.path.exists(path):
        na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "the check for this property is not built yet")})
        continue
    mod = importlib.import_module("mc.checks." + pid.lower())
    checks.append(
        {
            "property": pid,
            "quick_cmd": "python3 mc/run.py %s quick" % pid,
            "thorough_cmd": "python3 mc/run.py %s thorough" % pid,
            "technique": getattr(mod, "TECHNIQUE", "explicit-state model checking: exhaustive enumeration of a bounded derivation machine, every run executed on the implementation"),
            "level": mod.LEVEL,
            "level_note": mod.RULE + ". Assumes: " + ("; ".join(mod.ASSUMES) or "nothing further") + ".",
        }
    )
json.dump(
    {
        "version": 1,
        "setup_cmd": "python3 mc/selftest.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "pure Python; nothing to build; see DESIGN.md",
    },
    open(os.path.join(ROOT, "MANIFEST.json"), "w"),
    indent=1,
)
print(len(checks), "checks,", len(na), "not claimed")
