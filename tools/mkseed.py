#!/usr/bin/env python3
"""Builds a planted bug: mkseed.py SPEC.py [ids...]; SPEC.py defines SEEDS = [dict(id, property, needs, what, edits=[(file, old, new)], demo=python source)].
Works in a scratch copy of /repo, confirms the demonstration on both trees and writes /verif/seeded/<id>/."""
import importlib.util, json, os, shutil, subprocess, sys
SCR = "/tmp/seed/repo"
OUT = os.environ.get("SEED_OUT", "/verif/seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def reset():
    if not os.path.exists(SCR):
        os.makedirs(os.path.dirname(SCR), exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", SCR])
    subprocess.check_call(["git", "-C", SCR, "checkout", "-q", "--", "."])
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if sh(f"git -C {SCR} rev-parse HEAD").stdout.strip() != head:
        subprocess.check_call(["git", "-C", SCR, "fetch", "-q", "/repo", "HEAD"])
        subprocess.check_call(["git", "-C", SCR, "reset", "-q", "--hard", "FETCH_HEAD"])


def sub(file, a, b):
    with open(file, newline="") as f:
        s = f.read()
    if "\r\n" in s:
        a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
    if s.count(a) != 1:
        raise SystemExit(f"{file}: {s.count(a)} matches")
    with open(file, "w", newline="") as f:
        f.write(s.replace(a, b))


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    for s in mod.SEEDS:
        if sys.argv[2:] and s["id"] not in sys.argv[2:]:
            continue
        reset()
        d = f"/tmp/seed/out/{s['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(f"{d}/demo.py", "w") as f:
            f.write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport warnings\nwarnings.filterwarnings('ignore')\nimport logging\n"
                    "import numpy as np\nimport smote_variants as sv\nlogging.getLogger('smote_variants').setLevel(logging.CRITICAL)\n" + s["demo"])
        with open(f"{d}/demo.sh", "w") as f:
            f.write("#!/bin/bash\n# exit 0: the property holds, nonzero: it is broken\n"
                    "export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1 PYTHONDONTWRITEBYTECODE=1\n"
                    "here=$(cd \"$(dirname \"$0\")\" && pwd)\nexec /opt/venv/bin/python \"$here/demo.py\"\n")
        clean = sh(f"timeout 300 bash {d}/demo.sh", cwd=SCR)
        for file, a, b in s["edits"]:
            sub(f"{SCR}/{file}", a, b)
        patch = subprocess.run(["git", "-C", SCR, "diff"], capture_output=True).stdout
        with open(f"{d}/patch.diff", "wb") as f:
            f.write(patch)
        bad = sh(f"timeout 300 bash {d}/demo.sh", cwd=SCR)
        ok = clean.returncode == 0 and bad.returncode != 0
        tests = ""
        if ok and s.get("tests"):
            r = sh(f"timeout 1500 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=300 {s['tests']}", cwd=SCR,
                   env={**os.environ, "OMP_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "CUDA_VISIBLE_DEVICES": "-1"})
            tests = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:]
            ok = ok and r.returncode == 0
            if r.returncode:
                print("\n".join(r.stdout.splitlines()[-8:]))
        print(s["id"], s["property"], "OK" if ok else "NOT", "clean", clean.returncode, "patched", bad.returncode, tests)
        if not ok:
            print(clean.stdout[-500:], clean.stderr[-800:], "----", bad.stdout[-500:], bad.stderr[-500:])
            continue
        with open(f"{d}/meta.json", "w") as f:
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, f, indent=1)
        dst = f"{OUT}/{s['id']}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        reset()


main()
