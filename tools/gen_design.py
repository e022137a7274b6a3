"""Refreshes the table of planted bugs in DESIGN.md."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs |", "|---|---|---|"]
for d in sorted(os.listdir(f"{V}/seeded")):
    with open(f"{V}/seeded/{d}/meta.json") as f:
        m = json.load(f)
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
with open(f"{V}/DESIGN.md") as f:
    t = f.read()
t = re.sub(r"(<!-- seeded:begin -->\n).*?(<!-- seeded:end -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], t,
           flags=re.S)
with open(f"{V}/DESIGN.md", "w") as f:
    f.write(t)
