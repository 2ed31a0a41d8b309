"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique="", note=""):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier={"over": over, "text": text},
            why_tests_cant=why,
            anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
            _note=note,
        )
    )


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

NA = []
TECH = (
    "symbolic execution of the code in /repo (numpy arrays of solver terms, forking at branches), "
    "obligations decided by z3 over all real/integer inputs within stated sizes; counterexamples replayed on the unpatched code"
)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks = []
for p in P:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i + ".py")):
        checks.append(
            dict(
                property=i,
                quick_cmd=f"bash run.sh {i} quick",
                thorough_cmd=f"bash run.sh {i} thorough",
                evidence_file=f"evidence/{i}.json",
                technique=TECH,
                level="model_checking",
                level_note=p["_note"]
                or "bounded: every value of the inputs within the sizes listed as bounds in the evidence; reals for floats; see DESIGN.md",
            )
        )
    else:
        NA.append(dict(property=i, reason=p["_note"]))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=NA, notes="see DESIGN.md")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
