"""Writes MANIFEST.json from the check modules present in checks/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = {
    "R": "Every feasible path of the real rule code over symbolic triples up to the stated size is explored; on each, z3 must refute path AND NOT "
         "property. Trusts the stub of rdflib (validated on sampled paths against the real one in every run), the reference rule tables and z3.",
}
DEFAULT = ("Exhaustive over all values of the symbolic inputs within the bounds in the evidence file; trusts the symbolic model of the host library "
           "(sampled paths and every counterexample are replayed on the real one), the written-down oracle and z3.")
NA = {}
try:
    NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
except FileNotFoundError:
    pass
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": "bounded symbolic execution of the real code, SMT (z3) verdict per path",
                       "level": "model_checking", "level_note": NOTE.get(i[0], DEFAULT)})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "check.py <id> <tier>; the code under test is read from /repo/owlrl on every run; no hooks in /repo are needed."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
