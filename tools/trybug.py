#!/usr/bin/env python3
"""Try planted bugs in a scratch copy: trybug.py ID... [--tests] [--check PROP]

Copies /repo to /tmp/trybug, runs the demo without and with the patch, the C++ tests (--tests) and the check of the property.
"""
import argparse, concurrent.futures, glob, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/trybug"
INC = ["-I" + S + "/repo", "-isystem", "/opt/dune/venv/include", "-I/repo/_build", "-I/repo/_build/include_private", "-I/repo/_build/include", "-DHAVE_CONFIG_H"]
LIBS = ["/opt/dune/venv/lib/libdunecommon.a", "-lopenblas", "-lm", "-ldl", "-pthread"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def test_one(src):
    exe = S + "/t-" + os.path.basename(src)[:-3]
    objs = [S + "/repo/dune/geometry/referenceelementimplementation.cc", S + "/repo/dune/geometry/quadraturerules/quadraturerules.cc"]
    extra = sh(["cat", src]).stdout
    r = sh(["g++", "-std=gnu++20", "-O1", "-w", *INC, src, *objs, *LIBS, "-o", exe])
    if r.returncode:
        return src, "COMPILE " + r.stdout[-600:]
    r = sh([exe], timeout=600, cwd=S)
    return src, "ok" if r.returncode == 0 else "FAIL " + r.stdout[-400:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="+")
    ap.add_argument("--tests", action="store_true")
    ap.add_argument("--check", action="append")
    ap.add_argument("--nodemo", action="store_true")
    o = ap.parse_args()
    for i in o.ids:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        shutil.rmtree(S, ignore_errors=True)
        os.makedirs(S)
        sh(["git", "clone", "-q", os.environ.get("TRYBUG_REPO", "/repo"), S + "/repo"])
        out = []
        if not o.nodemo:
            r = sh(["bash", d + "/demo.sh"], cwd=S + "/repo")
            out.append("demo clean %d%s" % (r.returncode, "" if r.returncode == 0 else " !!! " + r.stdout[-500:]))
        r = sh(["git", "apply", d + "/patch.diff"], cwd=S + "/repo")
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stdout)
            continue
        if not o.nodemo:
            r = sh(["bash", d + "/demo.sh"], cwd=S + "/repo")
            out.append("demo bug %d%s" % (r.returncode, "" if r.returncode else " !!!") + " " + r.stdout.strip()[-150:])
        if o.tests:
            tests = sorted(glob.glob(S + "/repo/dune/geometry/test/*.cc"))
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                bad = [(os.path.basename(t), x) for t, x in ex.map(test_one, tests) if x != "ok"]
            out.append("tests " + ("ok" if not bad else "!!! %s" % bad))
        for c in o.check or [meta["property"]]:
            t = time.time()
            r = sh([sys.executable, V + "/run.py", c], env=dict(os.environ, VERIF_REPO=S + "/repo", VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append("%s exit %d %.0f s %s" % (c, r.returncode, time.time() - t, "CAUGHT" if r.returncode == 1 and v else "MISSED " + r.stdout[-300:]))
        print(i, "|", " | ".join(out), flush=True)
    shutil.rmtree(S, ignore_errors=True)


main()
