import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "checks")); sys.dont_write_bytecode = True
import registry
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup_check.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's headers as they are", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": registry.CHECKS[p]["technique"], "level": "model_checking",
                 "level_note": registry.CHECKS[p]["note"]} for p in ids if p in registry.CHECKS],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in registry.CHECKS]}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "checks")
