"""writes MANIFEST.json from the properties and the contract/companion modules that exist"""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification: the functions are extracted from /repo's current source, executed symbolically and every contract obligation is discharged for all inputs (exact normal forms + z3)"
NOTES = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)["id"]
    con = os.path.exists(os.path.join(HERE, "contracts", p.lower() + ".py"))
    comp = os.path.exists(os.path.join(HERE, "bounded", p.lower() + ".py"))
    if con and comp:
        checks.append(dict(property=p, quick_cmd=f"python3-vt check.py {p} quick", thorough_cmd=f"python3-vt check.py {p} thorough",
                           evidence_file=f"evidence/{p}.json", technique=T, level="proof", level_note=NOTES.get(p, NOTES["*"])))
    else:
        na.append(dict(property=p, reason="contracts for this property are not finished"))
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo. Every check reads /repo's working tree on every run; nothing is built in advance.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
