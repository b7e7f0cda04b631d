"""Writes MANIFEST.json from the plan of the checks."""
import json, sys
sys.path.insert(0, "/verif/harness")
import check
NOTES = check.NOTES
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
ids = [p["id"] for p in props]
checks = [
    {"property": i, "quick_cmd": f"./run_check.sh {i} quick", "thorough_cmd": f"./run_check.sh {i} thorough",
     "technique": NOTES[i][0], "level": "model_checking", "level_note": NOTES[i][1]}
    for i in ids if i in check.PLAN]
na = [{"property": i, "reason": "its specification module and driver are not built yet"} for i in ids if i not in check.PLAN]
json.dump({"version": 1, "setup_cmd": "./setup.sh",
  "hooks": {"guard": "DIWIRE_VERIF_HOOKS", "enable": "no hooks are compiled into /repo: the checks import /repo/src as it is and observe it through its public API and instrumented user providers", "source_commits": []},
  "checks": checks, "not_applicable": na,
  "notes": "TLA+ specifications in spec/, checked by TLC and bound to the code by trace validation and replay (DESIGN.md)."},
  open("/verif/MANIFEST.json", "w"), indent=1)
