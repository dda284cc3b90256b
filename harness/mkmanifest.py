"""Writes MANIFEST.json from the registry (run by hand when checks are added)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "/repo")
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append({"property": i,
                       "quick_cmd": f"./check.py {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough ./check.py {i}",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": registry.TECH.get(i, "TLA+ spec: TLC-exhaustive bounded design model + TLC validation of traces recorded from the real code"),
                       "level": "model_checking",
                       "level_note": registry.NOTE.get(i, "Design exhaustive within the stated bounds; code decided on every transition of the bounded model that was replayed and on seeded random histories, each event judged by TLC. Trusts TLC, the observation code in harness/ and that the drivers reach the behaviour.")})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "true",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every observation uses the public API. check.py <ID> rebuilds nothing (pure Python, imported from /repo)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
