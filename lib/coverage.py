# coverage.py: writes COVERAGE.md from evidence/*.json (run after the checks on the unchanged tree)
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["# What one run of each check covered on the unchanged tree\n"]
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(V + "/properties.jsonl")}
tot = 0
for f in sorted(glob.glob(V + "/evidence/C*.json")):
    e = json.load(open(f)); c = e["coverage"]
    out.append("## %s %s\n" % (e["property"], titles[e["property"]]))
    out.append("%s tier, %s, %.0f s\n" % (e["tier"], "exhaustive" if c["exhaustive"] else "NOT exhaustive", e["wall_s"]))
    out.append("| scenario | executions | states | steps | what |\n|---|---|---|---|---|")
    for s in c["scenarios"]:
        tot += s["executions"]
        out.append("| %s/%s | %d | %d | %d | %s |" % (s["part"], s["name"], s["executions"], s["states"], s["steps"], s["what"].replace("|", "\\|")))
    out.append("")
out.insert(1, "%d executions in all.\n" % tot)
open(V + "/COVERAGE.md", "w").write("\n".join(out))
