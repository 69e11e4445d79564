"""Writes DESIGN.md from tools/design_head.md, tools/design_props.py, the property files, known-findings.jsonl and seeded/."""
import ast, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from design_props import P
os.chdir(HERE)
props = [json.loads(l) for l in open("properties.jsonl")]
manifest = json.load(open("MANIFEST.json"))
out = [open("tools/design_head.md").read().rstrip(), "", "## 3. Properties", ""]


def assumptions(pid):
    names = {}
    for n in ast.parse(open("props/%s.py" % pid.lower()).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                names[n.targets[0].id] = eval(compile(ast.Expression(n.value), "x", "eval"), {}, names)
            except Exception:
                pass
    return names["ASSUMPTIONS"]


na = {x["property"] if "property" in x else x["id"]: x for x in manifest.get("not_applicable", [])}
for p in props:
    pid = p["id"]
    out += ["### %s %s" % (pid, p["title"]), ""]
    if pid in na:
        out += ["Not applicable: " + na[pid].get("reason", ""), ""]
        continue
    a, b = P[pid]
    mech = p["anchors"].get("mechanism", [])
    out += ["Under contract: " + "; ".join("%s (%s)" % (m["where"], m["name"]) for m in mech) + ".", "",
            "Specified: " + a, "", "Enumerated, bounded or left to the search: " + b, "", "Assumed:"]
    out += ["- " + x for x in assumptions(pid)] + [""]
out += open("tools/design_tail.md").read().rstrip().split("\n") + [""]
lines = open("known-findings.jsonl").read().split("\n")
out += ["## 5. Defects found", "", "### 5.1 Repaired (`fix:` commits in /repo)", ""]
for l in lines:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        out.append("- %s %s: %s" % (m[1], m[2][:7], m[3]))
out += ["", "### 5.2 Known findings (not repaired)", ""]
for l in lines:
    if l.startswith("{"):
        d = json.loads(l)
        out.append("- %s `%s`: %s" % (d["property"], d["match"], d["what"]))
out += ["", "## 6. Planted bugs and what catches them", "",
        "Every one builds, passes the 1770 stable tests, and has a demonstration.  The check of the property named catches it"
        " (exit 1); \"proof\" means that no failing input is found and the line ends with no-failing-input-found.", "",
        "| id | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    out.append("| %s | %s%s | %s | %s |" % (d, m["property"], " (proof)" if d == "c10-empty" else "", m["needs"], m["what_it_breaks"]))
open("DESIGN.md", "w").write("\n".join(out) + "\n")
