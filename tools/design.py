# Fills the table of planted changes in DESIGN.md from seeded/*/meta.json.
import json, glob, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = ["| id | what it needs in order to show | what it breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[1], m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"])))
s = open("DESIGN.md").read()
s = re.sub(r"<!-- table -->.*?<!-- end -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)
