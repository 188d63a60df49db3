"""Writes properties.jsonl and MANIFEST.json from tools/meta.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
from meta import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p["state"]:
            d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in p["state"]]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3-vt /verif/check.py {p['id']} --tier quick", thorough_cmd=f"python3-vt /verif/check.py {p['id']} --tier thorough",
                       technique=p["technique"], level=p["level"], level_note=p["note"]))
m = dict(version=1, setup_cmd="python3-vt -m compileall -q /verif/wsa", checks=checks, not_applicable=na,
         notes="Static analysis only: no code of the package is executed by any check. No hooks in /repo.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
# per-property section of DESIGN.md
d = open(f"{V}/DESIGN.md").read() if os.path.exists(f"{V}/DESIGN.md") else "<!--PROPS--><!--/PROPS-->"
out = []
for p in PROPS:
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n" + (f"*Not applicable:* {p['na']}\n" if p["na"] else f"*Decided by:* {p['decide']} Level: {p['level']}.\n") + f"*Beyond tests:* {p['why']}\n")
a, rest = d.split("<!--PROPS-->")
b = rest.split("<!--/PROPS-->")[1]
if "<!--SEEDS-->" in b:
    rows = ["| bug | property | needs | breaks |", "|---|---|---|---|"]
    for i in sorted(os.listdir(f"{V}/seeded")) if os.path.isdir(f"{V}/seeded") else []:
        q = json.load(open(f"{V}/seeded/{i}/meta.json"))
        rows.append("| " + " | ".join(str(x).replace("|", "\\|").replace("\n", " ") for x in (i, q["property"], q["needs"], q["what_it_breaks"])) + " |")
    b = b.split("<!--SEEDS-->")[0] + "<!--SEEDS-->\n" + "\n".join(rows) + "\n<!--/SEEDS-->" + b.split("<!--/SEEDS-->")[1]
open(f"{V}/DESIGN.md", "w").write(a + "<!--PROPS-->\n" + "\n".join(out) + "<!--/PROPS-->" + b)
print(len(checks), "checks,", len(na), "not applicable")
