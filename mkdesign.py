"""writes DESIGN.md from design/*.md, the planted bugs and the list of repairs"""
import glob, json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (p.split("/")[1], m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
body = open("design/body.md").read().replace("@TABLE@", "\n".join(rows)).replace("@FIX@", str(len(json.load(open("known-findings.json"))["fixed"])))
body = body.replace("@MUT@", open("design/mutants.md").read().strip())
open("DESIGN.md", "w").write(open("design/head.md").read().rstrip() + "\n" + body)
