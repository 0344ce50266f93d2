"""Regenerates properties.jsonl and MANIFEST.json from props_table.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_table import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Runtime monitoring of the real code: no violation on the executions generated from the seed; the oracle is "
        "independent code in vmon/, trusted together with numpy/astropy/h5py and the generators' reach. ")
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
        if os.path.exists(os.path.join(V, "vmon/props", p["id"].lower() + ".py")):
            checks.append({
                "property": p["id"], "quick_cmd": f"./check.sh {p['id']}",
                "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": "runtime monitoring: " + p["technique"], "level": p["level"],
                "level_note": NOTE + p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "monitor not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: monitors observe the public API from outside; fixes are unguarded commits listed in known_findings.json."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "claimed", len(na), "not")
