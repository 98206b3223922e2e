#!/usr/bin/env python3
"""add_fixed.py PROP 'commit subject (without fix: )' 'what failed' -- records a repaired defect"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, "known_findings.json")
def add(prop, subject, what):
    d = json.load(open(P))
    h = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--fixed-strings", "--grep=fix: " + subject], capture_output=True, text=True).stdout.split()
    assert len(h) == 1, (subject, h)
    text = f"fixed: property={prop} {h[0]} {what}"
    d["entries"] = [e for e in d["entries"] if not (e.get("status") == "fixed" and e["property"] == prop and e.get("commit") == h[0])]
    d["entries"].append({"property": prop, "status": "fixed", "commit": h[0], "what": text})
    out = '{"entries": [\n' + ",\n".join(" " + json.dumps(e) for e in d["entries"]) + "\n]}\n"
    open(P, "w").write(out)
if __name__ == "__main__":
    add(*sys.argv[1:4])
