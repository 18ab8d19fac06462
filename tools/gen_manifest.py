"""Writes MANIFEST.json from harness/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import registry
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        r = registry.PROPS[i]
        checks.append({
            "property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
            "technique": r.get("technique", "TLA+ specification; TLC validates recorded executions of the real code against it"
                               + (" and model checks bounded instances" if r.get("models") else "")),
            "level": "model_checking",
            "level_note": r["note"]})
    else:
        na.append({"property": i, "reason": "check not built yet (work in progress)"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
