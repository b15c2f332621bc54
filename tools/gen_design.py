"Writes DESIGN.md from the text in tools/, the properties, their check modules and the planted bugs."
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(*p):
    return open(os.path.join(ROOT, *p), encoding="utf-8").read()


TECH, WHY = {}, {}
exec(read("tools", "notes.py"))
COST = json.loads(read("tools", "cost.json")) if os.path.exists(os.path.join(ROOT, "tools", "cost.json")) else {}
out = [read("tools", "design_head.md"), "## Properties\n"]
for line in read("properties.jsonl").splitlines():
    p = json.loads(line)
    k = p["id"]
    tree = ast.parse(read("rt", "props", k.lower() + ".py"))
    g = {n.targets[0].id: n.value for n in tree.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
    cases = ast.literal_eval(g["CASES"])
    out.append(f"### {k} {p['title']}\n")
    out.append(p["statement"] + "\n")
    out.append(f"*Decided by* {TECH[k].removeprefix('runtime monitoring: ')}.\n")
    out.append(" ".join(ast.literal_eval(g["RULE"]).split()) + "\n")
    if "ASSUMPTIONS" in g:
        a = ast.literal_eval(g["ASSUMPTIONS"])
        if a:
            out.append("*Assumed:* " + "; ".join(a) + ".\n")
    out.append(f"*Bounds:* {cases['quick']} cases (thorough: up to {cases['thorough']} in 10 minutes)" + (f"; quick check {COST[k]}" if k in COST else "") + f". *Beyond the tests:* {WHY[k]}\n")
out.append(read("tools", "design_tail.md"))
out.append("## Planted bugs\n")
out.append(read("tools", "planted.md"))
open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8").write("\n".join(out).rstrip() + "\n")
