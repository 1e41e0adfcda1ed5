"""Rewrites section 6 of DESIGN.md from seeded/*/meta.json (run by hand; the output is committed)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
head = "| property | planted bug | needs | breaks |\n|---|---|---|---|\n"
i = s.index(head) + len(head)
rows = []
for d in glob.glob(os.path.join(V, "seeded", "*")):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append((m["property"], os.path.basename(d), m["needs"], m["what_it_breaks"]))
open(p, "w").write(s[:i] + "".join("| %s | %s | %s | %s |\n" % r for r in sorted(rows)))
