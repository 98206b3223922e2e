#!/opt/venv/bin/python
"""Writes /verif/MANIFEST.json: every property with a check module is claimed."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if pid not in NA and os.path.exists(os.path.join(V, "mc", "checks", pid.lower() + ".py")):
        m = importlib.import_module("mc.checks." + pid.lower())
        note = ("Every execution of the real code within the bounds is enumerated in lock step with a reference model; nothing is sampled. "
                "Quick: " + m.BOUNDS["quick"] + ". Thorough: " + m.BOUNDS["thorough"] + ".")
        if m.ASSUMPTIONS:
            note += " Assumes: " + "; ".join(m.ASSUMPTIONS) + "."
        checks.append({"property": pid, "quick_cmd": f"bin/check {pid} --tier quick",
                       "thorough_cmd": f"bin/check {pid} --tier thorough",
                       "technique": getattr(m, "TECHNIQUE", "explicit-state model checking: exhaustive bounded enumeration, model and implementation in lock step"),
                       "level": m.LEVEL, "level_note": note})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
