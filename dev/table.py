"""Development helper: the table of seeded bugs of DESIGN.md, from their meta.json
(and, if given, the output of plant.py --check)."""
import glob
import json

print("| bug | what it breaks | caught by |\n|---|---|---|")
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    w = m["what_it_breaks"].split("; ")[0]
    w = w if len(w) < 105 else w[:100].rsplit(" ", 1)[0] + " ..."
    print(f"| {f.split('/')[-2]} | {w} | {m['property']} |")
