"""Writes /verif/DESIGN.md from the check modules (what is generated, assumptions) and the text below."""
import importlib, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(VERIF, "harness"), "/repo"]
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
out = [open(os.path.join(HERE, "design-intro.md")).read()]
notes = dict(re.findall(r"^## (C\d\d)\n(.*?)(?=^## |\Z)", open(os.path.join(HERE, "design-notes.md")).read(), re.S | re.M))
out.append("## Properties\n")
for p in props:
    mod = importlib.import_module("checks." + p["id"].lower())
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("Parts and examples (quick/thorough): " + ", ".join("%s %d/%d%s" % (s.name, s.examples["quick"], s.examples["thorough"], " (real execution)" if s.executes else "")
                                                             for s in mod.subs()) + ".\n")
    out.append("Generated, oracle and non-triviality: " + mod.RULE + "\n")
    if mod.ASSUMPTIONS: out.append("Assumptions: " + "; ".join(mod.ASSUMPTIONS) + ".\n")
    out.append(notes.get(p["id"], "").strip() + "\n")
out.append(open(os.path.join(HERE, "design-end.md")).read())
seeded = os.path.join(VERIF, "seeded")
rows = []
for d in sorted(os.listdir(seeded)) if os.path.isdir(seeded) else []:
    mp = os.path.join(seeded, d, "meta.json")
    if os.path.exists(mp):
        m = json.load(open(mp))
        rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "\\|"), ", ".join(m.get("caught_by", [])) or "(not run)"))
out.append("## Planted bugs\n\n%d changes, each confirmed in a scratch copy: the 43 tests pass, demo.sh passes without and fails with the change. Last column: the quick checks that "
           "report a violation with seed 1 (tools/plant.py runs them).\n\n| id | property | breaks | caught by |\n|---|---|---|---|\n" % len(rows) + "\n".join(rows) + "\n")
open(os.path.join(VERIF, "DESIGN.md"), "w").write("\n".join(out))
