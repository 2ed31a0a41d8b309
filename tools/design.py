"""Writes DESIGN.md."""
import ast
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from design_data import HOW, NOTES


def bounds(pid):
    t = ast.parse(open(f"{ROOT}/checks/{pid}.py").read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "BOUNDS":
            return eval(compile(ast.Expression(n.value), "b", "eval"))
    return ""


def costs():
    """From the last quick runs; remembered in cost.json."""
    f = f"{HERE}/cost.json"
    c = json.load(open(f)) if os.path.exists(f) else {}
    for p in sorted(glob.glob(f"{ROOT}/evidence/P*.json")):
        e = json.load(open(p))
        if e["tier"] == "quick" and not e["violations"]:
            v = e["coverage"]
            c[e["property"]] = [max(1, round(e["wall_s"])), v["states"], v["obligations"], v["solver_queries"], round(v["solver_seconds"])]
    json.dump(c, open(f, "w"), indent=0, sort_keys=True)
    return c


def main():
    props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl") if l.strip()]
    cost = costs()
    out = [open(f"{HERE}/design_head.md").read().rstrip(), "", "## Properties", ""]
    for p in props:
        i = p["id"]
        out += [f"### {i} {p['title']}", "", p["statement"], ""]
        out += ["- How: " + HOW[i]]
        out += ["- Bounds: " + bounds(i) + "."]
        if i in cost:
            c = cost[i]
            out += [f"- Cost (quick tier, 8 cores): about {c[0]} s wall, {c[1]} paths, {c[2]} obligations, {c[3]} solver queries, {c[4]} s of solver time."]
        out += ["- Why the tests cannot: " + (p["why_tests_cant"]) + ".", ""]
    out += [NOTES.rstrip(), "", "## Planted changes", "", open(f"{HERE}/catch.md").read().rstrip() if os.path.exists(f"{HERE}/catch.md") else "", ""]
    out += ["## Defects found and repaired in /repo", ""]
    out += ["- " + l.strip()[7:] for l in open(f"{ROOT}/known_findings.txt") if l.startswith("fixed:")]
    open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
