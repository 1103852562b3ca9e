"""Append the table of planted bugs to DESIGN.md from /verif/seeded/*/meta.json and tools/caught.json."""
import json
import os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
rows = ["## Planted bugs and the check that catches them (quick tier, VERIF_SEED=1)", "", "| bug | needs | result |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "/")[:160], caught.get(d, "not run")))
p = os.path.join(V, "DESIGN.md")
t = open(p).read().split("## Planted bugs and the check")[0].rstrip() + "\n\n"
open(p, "w").write(t + "\n".join(rows) + "\n")
