#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the check modules that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "props", i.lower() + ".py")):
        tech, note = TECH[i]
        checks.append({
            "property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use only the public interface of /repo",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks: TLA+ specification in spec/ checked with TLC, bound to the code by replaying its "
              "behaviours and by answering requests recorded from the code. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
