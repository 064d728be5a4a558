"""Regenerate MANIFEST.json: python3 tools/manifest.py (claims every property that has a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(V, "tools", "techniques.py"), encoding="utf-8").read(), T)
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "mon", "checks", p.lower() + ".py")):
        tech, note = T["TECH"][p]
        checks.append(dict(property=p, quick_cmd=f"./check {p}",
                           thorough_cmd=f"VERIF_TIER=thorough ./check {p}",
                           technique=tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=p, reason="no check built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: monitors observe the public interface, callbacks, logging, sys.settrace and stand-in "
               "streams, sockets and clocks; /repo carries only fix: commits. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8"), indent=1)
