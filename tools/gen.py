#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table in tools/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS, NA

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(ROOT, "vmc", "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "bash /verif/run.sh %s quick" % i,
                       "thorough_cmd": "bash /verif/run.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": i, "reason": "the exploration for this property has not been built yet"})
json.dump({"version": 1, "setup_cmd": "bash /opt/vp/build.sh --ext-only", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: every observation is made at public interfaces. See DESIGN.md."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

# DESIGN.md from the template, the bounds in the check modules and the notes
import ast, re
from notes import NOTES, COST
def bounds(i):
    t = ast.parse(open(os.path.join(ROOT, "vmc", "checks", i.lower() + ".py")).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "BOUNDS" if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            return ast.literal_eval(n.value)
s = open(os.path.join(ROOT, "tools", "design.md")).read()
rows, notes = [], []
for p in PROPS:
    b = bounds(p["id"])
    rows.append("**%s %s** (%s)\n: *Quick* (%s): %s\n: *Thorough* (%s): %s\n" % (p["id"], p["title"], p["technique"], COST[p["id"]][0], b["quick"], COST[p["id"]][1], b["thorough"]))
    notes.append("### %s %s\n\n%s\n\nWhy the tests cannot settle it: %s.\n" % (p["id"], p["title"], NOTES[p["id"]].strip(), p["why"]))
kf = [l.rstrip() for l in open(os.path.join(ROOT, "known_findings.txt")) if l.startswith(("finding", "fixed"))]
fx = [l for l in kf if l.startswith("fixed")]
fi = [l for l in kf if l.startswith("finding") and "key=shared:" not in l]
sh = re.findall("key=shared:(\\S+)", "\n".join(kf))
find = "Repaired (%d):\n\n" % len(fx) + "\n".join("* " + re.sub("fixed: property=(\\S+) (\\S+) ", "\\1 (`\\2`): ", l) for l in fx)
find += "\n\nRecorded, not repaired:\n\n" + "\n".join("* " + re.sub("finding: property=(\\S+) key=(\\S+) ", "\\1 `\\2`: ", l) for l in fi)
find += "\n* P24 `shared:<name>` (one per configuration: %s): the default operators of the constructors are mutable default arguments, so writing a hyperparameter of one object writes it for all objects that use the default. Repairing it means changing the signature of every constructor, which is not a small repair.\n" % ", ".join(sh)
seeds = []
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    seeds.append("| `%s` | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
s = s.replace("BOUNDTABLE", "\n".join(rows)).replace("NOTES", "\n".join(notes)).replace("FINDINGS", find)
s = s.replace("SEEDTABLE", "| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(seeds))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)
