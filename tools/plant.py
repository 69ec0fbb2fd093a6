"""
Plant a bug: plant(id, property, [(file, old, new), ...], demo, needs, breaks)
makes the change in a scratch copy of /repo, confirms that the existing tests pass, that
the demonstration passes without and fails with the change, and stores it in
/verif/seeded/<id>; then runs the check of the property against the copy.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True)


def plant(bug, prop, edits, demo, needs, breaks, checks=None):
    tmp = tempfile.mkdtemp(prefix="seed-")
    copy = os.path.join(tmp, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        for name, old, new in edits:
            path = os.path.join(copy, "src/autosar", name)
            with open(path, encoding="utf-8") as fh:
                text = fh.read()
            if text.count(old) != 1:
                print(f"{bug}: {name}: found {text.count(old)} times: {old[:60]!r}")
                return False
            with open(path, "w", encoding="utf-8") as fh:
                fh.write(text.replace(old, new))
        diff = sh("git diff", copy).stdout
        folder = os.path.join(tmp, "demo")
        os.mkdir(folder)
        for name, text in (("demo.py", demo), ("demo.sh", SH)):
            with open(os.path.join(folder, name), "w", encoding="utf-8") as fh:
                fh.write(text.lstrip("\n"))
        res = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests", copy, {"PYTHONPATH": copy + "/src"})
        last = res.stdout.strip().splitlines()[-1]
        if "786 passed" not in last or "failed" in last:
            print(f"{bug}: tests: {last}\n{res.stdout[-1500:]}")
            return False
        good, bad = (sh(f"bash {folder}/demo.sh", d) for d in ("/repo", copy))
        if good.returncode or not bad.returncode:
            print(f"{bug}: demo: unchanged {good.returncode} {good.stderr[-500:]} changed {bad.returncode}")
            return False
        caught = []
        for c in checks or [prop]:
            res = sh(f"./check {c}", VERIF, {"AUTOSAR_SRC": copy + "/src", "VERIF_EVIDENCE_DIR": tmp})
            lines = [x for x in res.stdout.splitlines() if x.startswith("VIOLATION")]
            caught.append(f"{c}:{'CAUGHT' if res.returncode == 1 and lines else 'MISSED rc=%d' % res.returncode}")
            if not lines:
                print(res.stdout[-300:], res.stderr[-600:])
        dest = os.path.join(VERIF, "seeded", bug)
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(folder, dest)
        with open(os.path.join(dest, "patch.diff"), "w", encoding="utf-8") as fh:
            fh.write(diff)
        with open(os.path.join(dest, "meta.json"), "w", encoding="utf-8") as fh:
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, fh, indent=1)
        print(f"{bug}: stored; demo failed with: {bad.stderr.strip().splitlines()[-1][:120] if bad.stderr.strip() else bad.stdout.strip()[-100:]}; {' '.join(caught)}")
        return True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
