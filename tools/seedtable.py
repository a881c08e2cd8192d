"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + "/DESIGN.md"
mark = "\n## Planted bugs\n"
s = open(p).read().split(mark)[0]
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append((os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m.get("caught", "yes")))
s += mark + "\n| bug | caught by | needs |\n|---|---|---|\n"
for i, pr, n, c in rows:
    n = " ".join(n.split()).replace("|", "/").replace("<", "&lt;")
    s += "| %s | %s | %s |\n" % (i, pr if c == "yes" else "(missed) " + pr, n)
open(p, "w").write(s)
