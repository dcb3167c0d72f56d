"""Keep a planted bug: plant.py <id> <property> <spec.py>

spec.py defines EDITS = [(file, old, new)], DEMO (python source), NEEDS, BREAKS.
The bug is kept under /verif/seeded/<id>/ when it applies, passes the stable
tests, and its demonstration passes without it and fails with it.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy

PY = "/opt/venv/bin/python"
HEAD = '''import os, sys, shutil, tempfile, atexit, warnings, logging
repo = os.getcwd()
sys.path.insert(0, repo)
sys.dont_write_bytecode = True
os.environ["MPLBACKEND"] = "Agg"
os.environ["TQDM_DISABLE"] = "1"
warnings.simplefilter("ignore")
scratch = tempfile.mkdtemp()
os.environ.setdefault("MPLCONFIGDIR", scratch)
atexit.register(shutil.rmtree, scratch, True)
os.chdir(scratch)
import numpy as np

'''
SH = '''#!/bin/bash
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def demo(folder, repo):
    return subprocess.run(["bash", f"{folder}/demo.sh"], cwd=repo,
        capture_output=True, text=True, timeout=300)


def main(ident, prop, spec):
    spec = runpy.run_path(spec)
    work = tempfile.mkdtemp(dir="/tmp")
    try:
        repo = f"{work}/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        for name, old, new in spec["EDITS"]:
            with open(f"{repo}/{name}") as f:
                text = f.read()
            assert text.count(old) == 1, (name, old, text.count(old))
            with open(f"{repo}/{name}", "w") as f:
                f.write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", repo, "diff"],
            capture_output=True, text=True, check=True).stdout
        folder = f"{work}/seed"
        os.mkdir(folder)
        with open(f"{folder}/patch.diff", "w") as f: f.write(diff)
        with open(f"{folder}/demo.py", "w") as f: f.write(HEAD + spec["DEMO"])
        with open(f"{folder}/demo.sh", "w") as f: f.write(SH)
        with open(f"{folder}/meta.json", "w") as f:
            json.dump({"property": prop, "needs": spec["NEEDS"],
                "what_it_breaks": spec["BREAKS"]}, f, indent=1)
            f.write("\n")
        good = demo(folder, "/repo")
        assert good.returncode == 0, good.stdout + good.stderr
        bad = demo(folder, repo)
        assert bad.returncode != 0, "demo passes with the bug"
        with open("/opt/vp/BASELINE.json") as f:
            json.load(f)
        tests = subprocess.run([PY, "-B", "-m", "pytest", "-q", "-p",
            "no:cacheprovider", "-W", "ignore"], cwd=repo,
            capture_output=True, text=True,
            env=dict(os.environ, MPLBACKEND="Agg"))
        tail = tests.stdout.strip().splitlines()[-1]
        assert "219 passed" in tail and "failed" not in tail, tests.stdout[-1500:]
        target = f"/verif/seeded/{ident}"
        shutil.rmtree(target, ignore_errors=True)
        shutil.copytree(folder, target)
        print(ident, "kept;", tail, "| demo:", (bad.stderr or bad.stdout).strip().splitlines()[-1][:150])
    finally:
        shutil.rmtree(work)


main(*sys.argv[1:])
