"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOT_APPLICABLE = {}
TECH = {}
if os.path.exists(os.path.join(V, "lib", "techniques.json")):
    TECH = json.load(open(os.path.join(V, "lib", "techniques.json")))
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "hooks": {"guard": "cargo feature verif-hooks of crate tombi-schema-store (off by default)",
              "enable": "harness/Cargo.toml depends on /repo's crates with features = [\"verif-hooks\"]; no other build turns it on",
              "source_commits": ["79fca0d"]},
    "checks": [], "not_applicable": [],
}
for i in ids:
    if i in checks.CHECKS:
        t = TECH.get(i, {})
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py " + i + " --thorough",
            "technique": t.get("technique", "TLA+ specification model-checked with TLC; its behaviours replayed into the real code"),
            "level": "model_checking",
            "level_note": t.get("note", "exhaustive within the bounds given in the evidence file; conformance by replaying every generated behaviour"),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
