#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (authoring aid; no check runs it)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "source/"
P = []
def prop(id, title, statement, quant, why, files, mech, over=("inputs",), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": quant}, "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files], "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                          "observe_at": ["values and errors a BASIC program sees"], "hook_needed": None}})
exec(open(V + "/bin/props_table.py").read())
with open(V + "/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
done = {os.path.basename(f)[:3] for f in glob.glob(V + "/units/C*.c")}
checks, na = [], []
for p in P:
    i = p["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]})
    elif i in done:
        checks.append({"property": i, "quick_cmd": f"python3 bin/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {i}",
                       "technique": "contract-based deductive verification: CBMC code contracts (goto-instrument --dfcc) on the functions in /repo, discharged by SAT/SMT",
                       "level": "proof", "level_note": NOTE.get(i, "") or DEFNOTE})
    else: na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the contracts live in /verif/units and bind to the unmodified functions in /repo by name. Genuine defects repaired or recorded are in known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
