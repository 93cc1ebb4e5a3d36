import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks_config import CHECKS
checks = [{"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
           "technique": c["technique"], "level": "exploration", "level_note": c["note"]} for p, c in sorted(CHECKS.items())]
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": "the check for this property is not built yet"} for p in props if p not in CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: schedules are explored on an instrumented copy of the current tree made at check time and built through a go build overlay."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
