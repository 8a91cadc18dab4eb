"""Fill the generated parts of DESIGN.md from tools/design_head.md, the checks and seeded/*."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
checks = {x["property"]: x for x in man["checks"]}
out = []
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in na:
        out.append("Not decided here: %s\n" % na[i])
        continue
    f = glob.glob(os.path.join(V, "checks", i.lower() + "*.py"))[0]
    ns = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id in ("RULE", "BOUND", "ASSUMPTIONS", "DESIGN"):
            try:
                ns[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    out.append("- Enumerated: %s" % ns.get("RULE", ""))
    b = ns.get("BOUND", {})
    for t in ("quick", "thorough"):
        if b.get(t):
            out.append("- Bound (%s): %s" % (t, b[t]))
    out.append("- Judged against: %s" % checks[i]["level_note"])
    out.append("- Why tests cannot: %s" % p["why_tests_cant"])
    if ns.get("ASSUMPTIONS"):
        out.append("- Assumptions: %s" % "; ".join(ns["ASSUMPTIONS"]))
    if ns.get("DESIGN"):
        out.append("- " + ns["DESIGN"])
    out.append("")
seeds = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools/caught.json"))) if os.path.exists(os.path.join(V, "tools/caught.json")) else {}
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    seeds.append("| %s | %s | %s: %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "?")))
head = open(os.path.join(V, "tools/design_head.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(head.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds)))
