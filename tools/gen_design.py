"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
D = V / "DESIGN.md"
text = D.read_text().split("<!-- planted -->")[0].rstrip("\n")
rows = ["", "", "<!-- planted -->", "", "| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for m in sorted((V / "seeded").glob("*/meta.json")):
    x = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {x['property']} | {x['needs']} | {x['what_it_breaks']} |")
D.write_text(text + "\n".join(rows) + "\n")
