"""Writes the table of planted bugs (tools/seed_results.json) into DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/seed_results.json"))
rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for id in sorted(os.listdir(V + "/seeded")):
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, id)))
    r = res.get(id, {"checks": {}})["checks"]
    by = ["%s (%s)" % (c, ", ".join("`%s`" % x for x in r[c]["clauses"][:3])) for c in sorted(r) if r[c]["rc"] == 1]
    rows.append("| %s | %s | %s | %s |" % (id, meta["what_it_breaks"], meta["needs"], "; ".join(by) or "**missed**"))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- matrix -->.*<!-- /matrix -->", lambda m: "<!-- matrix -->\n" + "\n".join(rows) + "\n<!-- /matrix -->", s, flags=re.S)
open(p, "w").write(s)
