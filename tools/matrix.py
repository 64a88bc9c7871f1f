#!/usr/bin/env python3
"""Write the detection matrix into DESIGN.md from out/planted.json (development aid)."""
import json, os, re
V = "/verif"
r = json.load(open(f"{V}/out/planted.json"))
rows = ["| planted bug | property | needs | caught |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    x = r.get(d)
    x = x if isinstance(x, dict) else {}
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {'yes' if x.get('caught') else 'no' if x else 'not run'} |")
t = open(f"{V}/DESIGN.md").read()
t = re.sub(r"(?s)<!-- matrix -->.*<!-- /matrix -->", lambda _: "<!-- matrix -->\n" + "\n".join(rows) + "\n<!-- /matrix -->", t)
open(f"{V}/DESIGN.md", "w").write(t)
