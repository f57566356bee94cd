"""Rewrites the planted-bug table of DESIGN.md (section 6) from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- bugs -->", "| bug | property | what it breaks | needs | found by |", "|----|----|----|----|----|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], m.get("found_by", "")))
rows.append("<!-- /bugs -->")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
if "BUGTABLE" in s:
    s = s.replace("BUGTABLE", "\n".join(rows))
else:
    s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
