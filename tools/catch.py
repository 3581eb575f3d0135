"""rewrites the catch table and the number of repairs in DESIGN.md"""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
rows = []
for where in ("seeded", "seeded_fortran"):
    for f in sorted(glob.glob(where + "/*/meta.json")):
        m = json.load(open(f))
        rows.append("| %s/%s | %s | %s | %s |" % (where, os.path.basename(os.path.dirname(f)), m["property"],
                                                 m["needs"].replace("|", "/"), m.get("caught_by", "the check of " + m["property"])))
tab = "<!-- table -->\n| change | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- end -->\n"
s = open("DESIGN.md").read()
s = re.sub(r"CATCHTABLE\n|<!-- table -->.*<!-- end -->\n", lambda _: tab, s, flags=re.S)
n = len(set(x.split()[2] for x in json.load(open("known_findings.json"))["fixed"]))
s = re.sub(r"FIXCOUNT|\b\d+(?= repairs:)", str(n), s)
open("DESIGN.md", "w").write(s)
print(len(rows), "changes", n, "repairs")
