"""Writes tools/catch.md from the metadata of the planted changes and tools/catch.json (which check caught them)."""
import glob, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
rec = json.load(open(f"{HERE}/catch.json"))
out = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(f"{HERE}/../seeded/*/meta.json")):
    s = os.path.basename(os.path.dirname(m)); d = json.load(open(m)); k = s.split("-")[0]
    out.append(f"| {s} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {rec.get(k, 'not yet run')} |")
open(f"{HERE}/catch.md", "w").write("\n".join(out) + "\n")
