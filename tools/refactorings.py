#!/usr/bin/env python3
"""Applies each behaviour-preserving change of refactorings/ to a copy of /repo and runs the checks it may concern.

usage: refactorings.py [--all] [NAME...]     (--all: all checks, not only the concerned ones)
"""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR = os.path.join(ROOT, "refactorings")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS  # noqa: E402

CONCERNED = {
    "affine": "R01 R04 G01 G03 G08 G11 G12 G13 V02",
    "cube": "G02 G11 G12 V02 F01 F02 F03",
    "elementgeometry": "G08 G09 G10 G11 G12 G14 V02",
    "mapped": "G07 G09 G10 G11 G12 G14 V02",
    "matrix": "G13 G14 R01 R04 G01 G03 G04 G06 G07 G08 G09 G10 G11 G12 V02 P03",
    "multilinear": "G03 G04 G06 G07 G11 G12 V02 F01 F02 P03",
    "newton": "G14 G07 G08 G09 G10 G11 V02",
    "python": "P01 P02 P03",
    "quadrature": "Q01 Q02 Q03 Q04 Q05 Q06 G10 F04 V02 P02",
    "refelem": "R01 R02 R03 R04 R05 V01 T05 V02 P01",
    "refinement": "F01 F02 F03 F04 Q05",
    "types": "T01 T02 T03 T04 T05 Q03 P01",
    "vertexorder": "V01 V02 T05",
    "virtual": "F01 F02 F03 F04",
}


def main():
    names = [a for a in sys.argv[1:] if a != "--all"] or sorted(f[:-6] for f in os.listdir(DIR))
    alarms = []
    for name in names:
        tree = "/tmp/refactoring-" + name
        subprocess.run(["rm", "-rf", tree])
        subprocess.check_call(["git", "clone", "-q", os.environ.get("REFACTOR_REPO", "/repo"), tree])
        subprocess.check_call(["git", "-C", tree, "apply", os.path.join(DIR, name + ".patch")])
        for check in list(CHECKS) if "--all" in sys.argv else CONCERNED[name.split("-")[0]].split():
            p = subprocess.run([sys.executable, "run.py", check], cwd=ROOT, env=dict(os.environ, VERIF_REPO=tree), capture_output=True, text=True)
            print(name, check, "quiet" if p.returncode == 0 else "ALARM\n" + p.stdout + p.stderr, flush=True)
            if p.returncode != 0:
                alarms.append((name, check))
        subprocess.run(["rm", "-rf", tree])
    print("alarms:", alarms or "none")


if __name__ == "__main__":
    main()
