"""DESIGN.md: the text in design_body.md, the costs of the quick checks and the planted bugs"""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(os.path.join(here, "tools", "design_body.md")).read()
rows = []
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m["needs"]))
out += "\n## Planted bugs\n\nEach is caught by the quick check of the property it was planted for (seed 1), unless a note says otherwise.\n\n| caught by | change | breaks | needs |\n|---|---|---|---|\n"
for r in sorted(rows):
    out += "| " + " | ".join(c.replace("|", "/").replace("\n", " ") for c in r) + " |\n"
notes = os.path.join(here, "tools", "seed_notes.md")
if os.path.exists(notes):
    out += "\n" + open(notes).read()
open(os.path.join(here, "DESIGN.md"), "w").write(out)
print(len(rows), "planted bugs")
