"""Rewrite the table of seeded bugs at the end of DESIGN.md."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
doc = ROOT / "DESIGN.md"
head = doc.read_text().split("## Seeded bugs\n")[0]
rows = []
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append((m["property"], d.name, m["needs"], m["what_it_breaks"]))
text = (
    "## Seeded bugs\n\nEach is caught by the quick check of its own property (vcheck confirms the sample it runs).\n\n"
    "| property | bug | needs | breaks |\n|---|---|---|---|\n"
)
text += "".join("| " + " | ".join(x.replace("|", "\\|") for x in r) + " |\n" for r in sorted(rows))
doc.write_text(head + text)
