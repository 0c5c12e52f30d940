"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import checks
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the public API is observable enough. Specifications are TLA+ (spec/), checked with TLC; harness/ replays generated behaviours into /repo and validates the recorded traces against the specification."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = "python3 harness/run_check.py %s --tier " % i
        m["checks"].append({"property": i, "quick_cmd": c + "quick", "thorough_cmd": c + "thorough",
                            "technique": "TLA+ specification checked with TLC; behaviours generated by TLC replayed into the code, recorded traces validated by TLC against the specification",
                            "level": "model_checking", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
