"""writes MANIFEST.json from the list of claimed properties (tools/claims.json)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
claims = json.load(open(os.path.join(V, "tools", "claims.json")))
checks = []
na = []
for p in props:
    c = claims.get(p["id"])
    if c and "technique" in c:
        checks.append({"property": p["id"], "quick_cmd": "bin/check %s" % p["id"], "thorough_cmd": "bin/check %s --tier thorough" % p["id"],
                       "level": "model_checking", "technique": c["technique"], "level_note": c["note"]})
    else:
        na.append({"property": p["id"], "reason": (c or {}).get("reason", "not claimed: no check built yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
