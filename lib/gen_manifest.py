#!/usr/bin/env python3
"""Regenerate MANIFEST.json from rules.json, properties.jsonl and na.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules = json.load(open(V + "/rules.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
na = json.load(open(V + "/na.json")) if os.path.exists(V + "/na.json") else []
nad = {n["property"] for n in na}
m = {"version": 1, "setup_cmd": "python3 -c \"import json;json.load(open('rules.json'))\" && g++ --version >/dev/null",
     "hooks": {"guard": "BOOST_POLYGON_VERIF_HOOKS", "enable": "no hooks are needed: the checks use only the public headers of /repo/include", "source_commits": []},
     "checks": [], "not_applicable": list(na)}
for p in props:
    i = p["id"]
    if i in rules:
        r = rules[i]
        m["checks"].append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i + " --thorough",
                            "technique": r.get("technique", "property-based testing against a reference model"),
                            "level": "exploration", "level_note": r.get("note", "generated-input search; no claim beyond the cases explored")})
    elif i not in nad:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
