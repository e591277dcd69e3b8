#!/usr/bin/env python3
"""DESIGN.md from tools/design.md.in, known_findings.json, seeded/ and tools/sweep.md."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
read = lambda p: open(os.path.join(root, p)).read()
fixed = "\n".join("* " + f.removeprefix("fixed: ") for f in json.loads(read("known_findings.json"))["fixed"])
notes = json.loads(read("tools/seed_notes.json"))
rows = ["| change | property | what it breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    i = f.split("/")[-2]
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].rstrip(".").replace("|", "\\|"), notes.get(i, m["property"])))
s = read("tools/design.md.in")
for k, v in [("@FIXED@", fixed), ("@SEEDS@", "\n".join(rows)), ("@MUT@", read("tools/sweep.md").strip()), ("@COST@", read("tools/cost.md").strip())]:
    s = s.replace(k, v)
open(os.path.join(root, "DESIGN.md"), "w").write(s)
