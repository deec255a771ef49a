"""Write MANIFEST.json from the table of checks and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
PENDING = "no check for it is built yet; the family applies"
NA = {}
out = {"version": 1, "setup_cmd": "python3 lib/harness.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in checks.CHECKS:
        out["checks"].append({
            "property": i, "quick_cmd": "bin/check %s --tier quick" % i,
            "thorough_cmd": "bin/check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification checked with TLC; " + checks.TECHNIQUE[i],
            "level": "model_checking", "level_note": checks.NOTE[i]})
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, PENDING)})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
