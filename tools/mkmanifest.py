"""Regenerate MANIFEST.json from the checks that exist (props/cXX.py) and the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification: pre/postconditions on the repository's own functions, obligations generated from the traced source and discharged by term canonicalisation, z3 and cvc5"
NOTE = "Every obligation is regenerated from /repo's current source and discharged for all real inputs. Floats are treated as reals with inf/nan; XLA, JAX tracing and the engine are trusted."
NOTES = {}
LEVELS = {}
TECH = {}
NA = {"C32": "convergence of a stochastic gradient optimiser on a non-convex objective is not expressible as a contract that any deductive verifier here can discharge: it is false for some inputs and initial points, so no universally quantified postcondition holds; C12 and C20 cover what the optimisation-based methods do guarantee"}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "notes.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    if not os.path.exists(os.path.join(ROOT, "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "check not built yet"}); continue
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, T), "level": LEVELS.get(i, "proof"), "level_note": NOTES.get(i, NOTE)})
m = {"version": 1, "setup_cmd": "python3 tools/setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Known findings and fixes: known-findings.txt. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
