"""Rewrites the planted-bug table in DESIGN.md from seeded/*/meta.json and planted/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json") + glob.glob(V + "/planted/*/meta.json"), key=lambda m: os.path.basename(os.path.dirname(m))):
    j = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["needs"].replace("|", "/").replace("\n", " "), j.get("caught_by", j["property"])))
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"<!-- table -->.*?<!-- end -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
