"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(os.path.join(here, "DESIGN.md")).read()
head = d[:d.index("| bug | caught by | needs |")]
rows = []
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "\\|")))
open(os.path.join(here, "DESIGN.md"), "w").write(head + "| bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n")
print(len(rows), "bugs")
