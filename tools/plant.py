"""Makes and tries planted bugs.

  plant.py make DIR   each DIR/*.py defines ID, PROPERTY, EDITS=[(file, old,
                      new)], DEMO, NEEDS, BREAKS; writes seeded/<id>/ after
                      confirming it in a scratch copy
  plant.py try [IDS]  runs the property's quick check on each seeded bug
  plant.py all [IDS]  runs every quick check on each seeded bug
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONPATH="$PWD/src"
exec timeout 120 "$PY" "$here/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


class Copy:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
        self.repo = os.path.join(self.d, "repo")
        sh(["cp", "-a", "/repo", self.repo])
        return self.repo

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def tests(repo):
    env = dict(os.environ, PYTHONPATH=repo + "/src",
               PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent")
    r = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
            "--timeout=300", "--doctest-modules", "--doctest-glob=*.rst",
            "tests", "src", "docs/source/pages"], cwd=repo, env=env)
    return r.returncode == 0, (r.stdout + r.stderr)[-1500:]


def demo(repo, d):
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def make(path):
    b = runpy.run_path(path)
    d = os.path.join(SEED, b["ID"])
    with Copy() as repo:
        for f, old, new in b["EDITS"]:
            p = os.path.join(repo, "src/reparsec", f)
            s = open(p).read()
            n = b.get("COUNT", 1)
            if s.count(old) != n:
                print(b["ID"], "edit matches", s.count(old), "times:", old)
                return
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], cwd=repo).stdout
        ok, out = tests(repo)
        if not ok:
            print(b["ID"], "TESTS FAIL", out[-700:])
            return
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(b["DEMO"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["PROPERTY"], "needs": b["NEEDS"],
                   "what_it_breaks": b["BREAKS"]},
                  open(d + "/meta.json", "w"), indent=1)
        bad = demo(repo, d)
        sh(["git", "checkout", "-q", "--", "."], cwd=repo)
        good = demo(repo, d)
        if bad[0] == 0 or good[0] != 0:
            print(b["ID"], "DEMO WRONG patched:", bad, "unpatched:", good)
            shutil.rmtree(d)
            return
    print(b["ID"], "ok:", bad[1].strip().splitlines()[-1:] )


def run_checks(bug, which):
    d = os.path.join(SEED, bug)
    if not os.path.exists(d + "/meta.json"):
        print(bug, "no such bug")
        return
    meta = json.load(open(d + "/meta.json"))
    with Copy() as repo:
        r = sh(["git", "apply", d + "/patch.diff"], cwd=repo)
        if r.returncode:
            print(bug, "does not apply", r.stderr)
            return
        env = dict(os.environ, REPARSEC_REPO=repo, VERIF_SEED="1",
                   VERIF_TIER="quick")
        ids = [meta["property"]] if which == "own" else [
            "C%02d" % i for i in range(1, 40) if os.path.exists(
                ROOT + "/vlib/checks/c%02d.py" % i)]
        got = []
        for i in ids:
            r = sh(["./check", i, "quick"], cwd=ROOT, env=env)
            got.append("{}:{}".format(i, {0: "-", 1: "CAUGHT"}.get(
                r.returncode, "rc%d" % r.returncode)))
            if r.returncode not in (0, 1):
                print(r.stdout[-400:])
        print(bug, meta["property"], " ".join(
            g for g in got if not g.endswith(":-")) or "MISSED", flush=True)


def main(a):
    if a[0] == "make":
        for f in sorted(os.listdir(a[1])):
            if f.endswith(".py"):
                make(os.path.join(a[1], f))
    else:
        for bug in a[1:] or sorted(os.listdir(SEED)):
            run_checks(bug, "own" if a[0] == "try" else "all")


main(sys.argv[1:])
