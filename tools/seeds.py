"""Write the table of planted bugs at the end of DESIGN.md (from seeded/*/meta.json)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- planted bugs (tools/seeds.py) -->\n"
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    name = os.path.basename(os.path.dirname(f))
    by = ", ".join(m.get("caught_by", [m["property"]])) or "none"
    rows.append(f"| {name} | {m['needs']} | {m['what_it_breaks']} | {by} |\n")
p = os.path.join(V, "DESIGN.md")
text = open(p).read().split(MARK)[0]
open(p, "w").write(text + MARK + "| bug | needs | breaks | caught by |\n|---|---|---|---|\n"
                   + "".join(rows))
