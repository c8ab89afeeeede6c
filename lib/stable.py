"""stable.py RESULT.json: which stable tests of the repository did not pass."""
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open(sys.argv[1]))
bad = sorted(set(b["stable"]) - set(t["passed"]))
print("missing:", len(bad)); print("\n".join(bad[:20])); sys.exit(bool(bad))
