"""Writes MANIFEST.json from the checks that exist (harness/parts.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
import parts
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "TLA+ / TLC; see DESIGN.md. All checks: harness/check.py <ID>."}
for i in ids:
    if i in parts.CHECKS:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 harness/check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 harness/check.py " + i,
            "technique": parts.TECHNIQUE[i],
            "level": parts.LEVEL,
            "level_note": parts.NOTE.get(i, parts.NOTE["*"])})
    else:
        m["not_applicable"].append({"property": i, "reason": parts.NA.get(i, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
