"""Writes the table of planted bugs at the end of DESIGN.md; run by hand."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed at first, and what was added
MISSED = json.load(open(os.path.join(HERE, "tools", "missed.json")))
out = ["| planted bug | caught by | what it breaks | missed first; added |", "| --- | --- | --- | --- |"]
for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(os.path.join(HERE, "seeded", name, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (name, meta["property"], meta["what_it_breaks"].replace("|", "\\|"), MISSED.get(name, "")))
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
head = text[:text.index("## Planted bugs")]
open(path, "w").write(head + """## Planted bugs

`seeded/<id>/`; each was confirmed on a copy (demo passes before, fails after, stable tests pass)
and is caught by the quick check of its property.

""" + "\n".join(out) + "\n")
