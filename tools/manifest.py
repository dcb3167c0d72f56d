"""writes MANIFEST.json from properties.jsonl and the checks present"""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C28": "a limit over the number of samples of a piecewise linear interpolation of a transcendental "
           "curve: no bounded symbolic execution decides convergence, and the error at one fixed "
           "resolution is not specified anywhere; DESIGN.md says more",
}
NOTE = ("Symbolic execution of the functions of /repo's working tree (numpy, matplotlib and the file "
        "system encoded), every claim decided by z3/cvc5 for all inputs within the stated bounds; "
        "trusts exact real arithmetic for floats and the encodings of numpy, which are checked on every "
        "run by replaying a solver model of each path on the real libraries. Bounds in evidence.")
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(line)["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        checks.append({"property": i,
                       "quick_cmd": f"/opt/venv/bin/python -B run.py {i} quick",
                       "thorough_cmd": f"/opt/venv/bin/python -B run.py {i} thorough",
                       "technique": "symbolic execution of the real Python code + SMT (z3/cvc5), "
                                    "counterexamples replayed on the real code",
                       "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B run.py --selfcheck", "checks": checks,
     "not_applicable": na,
     "notes": "no hooks: the checks execute /repo's sources as they are; see DESIGN.md"}
with open(os.path.join(here, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", [x["property"] for x in na])
