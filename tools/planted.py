"""append the table of planted bugs to DESIGN.md (notes kept in NOTES)"""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "planted.json")))
rows = ["| bug | property | breaks | caught by |", "|---|---|---|---|"]
for p in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = p.split("/")[-2]
    m = json.load(open(p))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {NOTES.get(i, m['property'])} |")
d = open(os.path.join(V, "DESIGN.md")).read()
head, _ = d.split("## Planted bugs")
intro = _.split("| bug |")[0].rstrip()
open(os.path.join(V, "DESIGN.md"), "w").write(head + "## Planted bugs" + intro + "\n\n" + "\n".join(rows) + "\n")
