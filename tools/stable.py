"""stable.py OUT.json: which of the stable baseline tests did not pass."""
import json, sys
t = json.load(open(sys.argv[1])); b = json.load(open("/opt/vp/BASELINE.json"))
miss = sorted(set(b["stable"]) - set(t["passed"]))
print(len(b["stable"]), "stable;", len(miss), "not passed"); print("\n".join(miss[:20]))
sys.exit(bool(miss))
