"""DESIGN.md = tools/design_head.md + known findings + fixes + planted bugs (tools/design_tail.md)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = lambda n: open(os.path.join(V, "tools", n)).read()
k = json.load(open(os.path.join(V, "known_findings.json")))
out = t("design_head.md") + t("design_props.md") + t("design_tail.md")
out += "\n## Open findings (reported as KNOWN-FINDING, never suppressed for other mechanisms)\n\n"
for f in k["findings"]:
    out += f"* {f['property']} `{f['mechanism']}`: {f['what']}\n"
out += f"\n## Genuine defects repaired ({len(k['fixed'])} `fix:` commits in /repo)\n\n"
for f in k["fixed"]:
    out += f"* {f if isinstance(f, str) else ' '.join(str(x) for x in f.values())}\n"
out += "\n## Planted bugs kept in seeded/ and what catches them\n\n| id | property | needs | caught by |\n|---|---|---|---|\n"
c = json.load(open(os.path.join(V, "tools/caught.json")))
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    out += f"| {d} | {m['property']} | {m['needs']} | {c.get(d, '?')} |\n"
open(os.path.join(V, "DESIGN.md"), "w").write(out)
