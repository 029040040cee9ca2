"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and caught.json.

caught.json: bug -> list of checks (or notes) that were seen to report it."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(V, "planting", "caught.json")))
rows = ["| bug | what it needs | caught by |", "|---|---|---|"]
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s |" % (b, m["needs"].replace("|", "/"), ", ".join(caught.get(b, ["not run"]))))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
if "<!-- table -->" in s:
    s = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: t, s, flags=re.S)
else:
    s = s.replace("\nTABLE", "\n" + t)
open(p, "w").write(s)
