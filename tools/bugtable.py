"""Development aid: rewrite the table of planted bugs at the end of DESIGN.md."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
p = root / "DESIGN.md"
text = p.read_text()
head = text[: text.index("| id | property | needs |")]
rows = ["| id | property | needs |", "|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} |")
p.write_text(head + "\n".join(rows) + "\n")
