#!/opt/venv/bin/python -B
"""run.py C18 [quick|thorough]      decide one property
run.py --replay FILE             run a counterexample against the real code
run.py --all [tier]              every property, one after another"""
import importlib
import json
import os
import sys
import time

if os.environ.get("PYTHONHASHSEED") != "0":
    # the order of sets decides the order of constraints
    os.execve(sys.executable, [sys.executable, "-B", *sys.argv], dict(os.environ, PYTHONHASHSEED="0"))
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/tmp/.symx_mpl")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(v, "1")


def known_ids(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING: "):
                parts = line.split(" ", 3)
                kid = parts[2].split("=", 1)[1]
                if parts[1] == f"property={prop}":
                    out[kid] = parts[3].strip()
    return out


def run(prop, tier):
    from symx import explore
    mod = importlib.import_module("checks." + prop.lower())
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scs = mod.scenarios(tier)
    only = os.environ.get("SYMX_ONLY")
    if only:
        scs = [s for s in scs if only in s["name"]]
    budget = getattr(mod, "BUDGET", {"quick": 300, "thorough": 3000})[tier]
    procs = int(os.environ.get("SYMX_PROCS", "0")) or None
    t0 = time.time()
    tot = explore.run_scenarios(scs, tier, seed, budget, procs)
    code = 0
    msgs = []
    kn = known_ids(prop)
    fails = [f for f in tot["fails"] if not f.get("unreplayed")]
    unrep = [f for f in tot["fails"] if f.get("unreplayed")]
    for kid in sorted(tot["known"]):
        if kid in kn:
            print(f"KNOWN-FINDING: property={prop} {kid} {kn[kid]}")
        else:
            fails.append({"label": kid, "values": tot["known"][kid], "scenario": scs[0]["name"],
                          "replay": "unlisted finding", "by": "solver"})
    if fails:
        code = 1
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        for n, f in enumerate(fails[:3]):
            path = os.path.join(d, f"{prop}-{n}.json")
            with open(path, "w") as fh:
                json.dump({"property": prop, "tier": tier, "scenario": f["scenario"],
                           "label": f["label"], "values": f["values"],
                           "observed": f["replay"], "found_by": f["by"]}, fh, indent=1)
            print(f"  {f['scenario']}/{f['label']}: {f['replay']} (by {f['by']})")
            print(f"VIOLATION property={prop} replay={path}")
    # on the tree as committed both must not happen (SYMX_STRICT); on a changed
    # tree they narrow what the run decided and are reported, not alarmed
    strict = 2 if os.environ.get("SYMX_STRICT") else code
    missing = []
    for sc in scs:
        have = tot["labels"].get(sc["name"], {})
        for lb in sc.get("labels", []):
            if not have.get(lb):
                missing.append(f"{sc['name']}/{lb}")
        if not have:
            missing.append(sc["name"] + "/*")
    if not fails:
        if unrep:
            msgs.append("REDUCED-BOUNDS: a solver model did not replay on the real code: "
                        + json.dumps(unrep[:2])[:600])
            code = strict
        if tot["undecided"]:
            msgs.append(f"REDUCED-BOUNDS: UNDECIDED {tot['undecided']}")
            code = strict
        if missing:
            # with the exploration cut short this narrows the run as well
            msgs.append(f"never reached: {missing}")
            cut = (tot["left"] or tot["unsupported"]) and sum(tot["per"].values())
            code = strict if cut else 2
        if tot["unsupported"]:
            msgs.append(f"REDUCED-BOUNDS: paths left unencoded: {tot['unsupported']}")
        if tot["reduced"]:
            msgs.append(f"REDUCED-BOUNDS: {tot['reduced']}")
        if tot["left"]:
            msgs.append(f"REDUCED-BOUNDS: {tot['left']} path prefixes not explored in the budget")
    for n in tot["notes"][:5]:
        msgs.append("note: " + n)
    st = tot["stats"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": st.get("decisions", 0),
            "traces_validated_against_impl": tot["witnesses"],
            "samples": st.get("queries", 0),
            "technique": "symbolic execution of the code under test + SMT (z3, cvc5)",
            "functions_encoded": ["%s:%s" % t for t in sorted(tot["cov"])],
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside_bounds": getattr(mod, "OUTSIDE", ""),
            "queries": st.get("queries", 0), "unsat": st.get("unsat", 0),
            "sat": st.get("sat", 0), "unknown": st.get("unknown", 0),
            "solver_s": round(st.get("solver_s", 0.0), 2),
            "claims_proved_by_solver": st.get("proved", 0),
            "claims_closed_by_term_simplification": st.get("trivial", 0),
            "paths_per_scenario": tot["per"],
            "claims_per_scenario": tot["labels"],
            "unexplored_prefixes": tot["left"],
            "reduced_bounds": tot["reduced"], "unencoded_paths": tot["unsupported"],
            "numpy_functions_concretised": st.get("fallback_functions", {}),
            "notes": tot["notes"][:20],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "floating point arithmetic is modelled by exact real arithmetic with nan and infinities",
            "numpy/matplotlib primitives behave as their encodings in symx/arr.py, symx/stubs.py "
            "(validated by replaying one solver model per path on the real libraries)"],
        "violations": len(fails),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for m in msgs:
        print(f"{prop}: {m}")
    print(f"{prop} {tier}: {'held' if code == 0 else 'VIOLATED' if code == 1 else 'NO ANSWER'} "
          f"paths={tot['paths']} witnesses={tot['witnesses']} queries={st.get('queries', 0)} "
          f"proved={st.get('proved', 0)} trivial={st.get('trivial', 0)} "
          f"solver={st.get('solver_s', 0):.1f}s wall={time.time() - t0:.1f}s")
    return code


def replay(path):
    from symx import explore
    r = json.load(open(path))
    mod = importlib.import_module("checks." + r["property"].lower())
    for sc in mod.scenarios(r.get("tier", "quick")):
        if sc["name"] == r["scenario"]:
            f = explore.replay_scenario(sc, explore.unjson_values(r["values"]))
            if f is None:
                print("replay: every check passes")
                return 0
            print("replay:", f)
            print(f"VIOLATION property={r['property']} replay={path}")
            return 1
    print("no such scenario")
    return 2


def main(av):
    if av[0] == "--replay":
        return replay(av[1])
    if av[0] == "--selfcheck":
        from symx import explore
        explore.real_mods()
        explore.sym_mods()
        import z3
        import cvc5
        print("z3", z3.get_version_string(), "cvc5", cvc5.__version__)
        return 0
    if av[0] == "--all":
        tier = av[1] if len(av) > 1 else "quick"
        worst = 0
        import subprocess
        for p in sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "checks"))
                        if f.startswith("c") and f[1:3].isdigit()):
            worst = max(worst, subprocess.call([sys.executable, "-B", os.path.join(HERE, "run.py"), p, tier]))
        return worst
    tier = av[1] if len(av) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run(av[0].upper(), tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
