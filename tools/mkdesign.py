"""Fills the planted-bug table of DESIGN.md from seeded/*/meta.json (run by hand)."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
rows = ["Every one is caught by the quick check of its own property (seed 1).", "", "| id | what it breaks | what it needs |", "|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    cell = lambda x: " ".join(str(x).split()).replace("|", "\\|")
    rows.append("| %s | %s | %s |" % (f.split("/")[1], cell(m["what_it_breaks"]), cell(m["needs"])))
t = open("DESIGN.md").read()
t = t.replace("%FIXED%", str(sum(l.startswith("fixed:") for l in open("known_findings.txt"))))
i = t.index("## Planted bugs\n") + len("## Planted bugs\n")
open("DESIGN.md", "w").write(t[:i] + "\n".join(rows) + "\n")
