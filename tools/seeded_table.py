"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "| check | planted bug | what it breaks |\n|---|---|---|\n"
rows = []
for f in glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json")):
    with open(f) as m:
        m = json.load(m)
    rows.append("| %s | `%s` | %s |\n" % (m["property"], f.split(os.sep)[-2],
                                         m["what_it_breaks"]))
path = os.path.join(ROOT, "DESIGN.md")
with open(path) as f:
    text = f.read()
with open(path, "w") as f:
    f.write(text[:text.index(HEAD)] + HEAD + "".join(sorted(rows)))
