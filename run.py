#!/usr/bin/env python3
"""Driver of the checks: build from /repo, explore exhaustively, replay, report.

usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE]
       run.py --setup          build every harness for the current tree
       run.py --list           list the properties that have a check

Exit 0: the property held on everything explored.
Exit 1: a line "VIOLATION property=<id> replay=<path>" was printed.
Any other exit status is an error of the check itself.
"""
import argparse
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
DUNE = "/opt/dune/venv"
BUILD = os.path.join(VERIF, "build")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
JOBS = max(1, os.cpu_count() or 1)

sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
from checks import CHECKS  # noqa: E402

CXX = "g++"
BASE_FLAGS = ["-std=gnu++20", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS", "-pthread"]


class CheckError(Exception):
    pass


# --------------------------------------------------------------------------
# building


def library_sources():
    """The .cc files of the dune-geometry library (not the ones that headers include)."""
    base = os.path.join(REPO, "dune", "geometry")
    cc = [f for f in glob.glob(base + "/**/*.cc", recursive=True) if "/test/" not in f and "/benchmark" not in f]
    text = ""
    for f in glob.glob(base + "/**/*.hh", recursive=True) + cc:
        if "/test/" not in f:
            with open(f, errors="replace") as h:
                text += h.read()
    included = set(os.path.basename(m) for m in re.findall(r'#include\s+[<"]([^">]+\.cc)[">]', text))
    return sorted(f for f in cc if os.path.basename(f) not in included)


_tree_hash = None


def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for root in ("dune", "python", "CMakeLists.txt"):
            top = os.path.join(REPO, root)
            files = [top] if os.path.isfile(top) else [
                os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs if "__pycache__" not in d]
            for f in sorted(files):
                h.update(f.encode() + b"\0")
                with open(f, "rb") as g:
                    h.update(g.read())
        for f in sorted(glob.glob(VERIF + "/harness/**/*", recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode() + b"\0")
                with open(f, "rb") as g:
                    h.update(g.read())
        _tree_hash = h.hexdigest()
    return _tree_hash


def run_compiler(cmd, log):
    for attempt in range(2):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        out = p.stdout
        killed = p.returncode < 0 or "Killed signal" in out or "virtual memory exhausted" in out \
            or "No space left" in out or "internal compiler error" in out
        if p.returncode == 0 or not killed:
            break
    with open(log, "w") as f:
        f.write(shlex.join(cmd) + "\n" + out)
    if p.returncode != 0 and killed:
        raise CheckError("compiler was killed, see " + log)
    return p.returncode == 0


def compile_binary(name, sources, flags, libs, finish=None, targets=lambda jobs: [("bin", jobs)]):
    """Compile sources (paths) plus the library into BUILD/<name>-<hash>/bin.

    Returns (path, None), or (None, log) if the code does not compile."""
    key = hashlib.sha256((tree_hash() + repr((name, sources, flags, libs))).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "%s-%s" % (name, key))
    exe = os.path.join(out, "bin")
    if os.path.exists(exe):
        return exe, None
    old = sorted(glob.glob(os.path.join(BUILD, name + "-*")), key=os.path.getmtime)
    for d in old[:-3]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix=name + "-", dir=BUILD)
    inc = ["-I" + REPO, "-isystem", DUNE + "/include", "-I" + os.path.join(VERIF, "harness")]
    jobs = []
    for i, (src, extra) in enumerate(sources):
        obj = os.path.join(tmp, "%d.o" % i)
        jobs.append((obj, [CXX] + BASE_FLAGS + flags + extra + inc + ["-c", src, "-o", obj], obj + ".log"))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
        ok = list(pool.map(lambda j: run_compiler(j[1], j[2]), jobs))
    bad = [j for j, o in zip(jobs, ok) if not o]
    if not bad:
        log = os.path.join(tmp, "link.log")
        for target, of in targets(jobs):
            cmd = [CXX] + BASE_FLAGS + flags + [j[0] for j in of] + libs + ["-o", os.path.join(tmp, target)]
            if not bad and not run_compiler(cmd, log):
                bad = [(None, None, log)]
    if bad:
        return None, bad[0][2]
    for j in jobs:
        os.unlink(j[0])
    if finish:
        finish(tmp, out)
    try:
        os.rename(tmp, out)
    except OSError:          # someone else built the same thing
        shutil.rmtree(tmp, ignore_errors=True)
    return exe, None


def build_python(check):
    """The Python package of the repository, and 'bin', which starts a harness with it."""
    modules = check["python"]
    flags = check.get("flags", ["-O0"]) + ["-fPIC", "-DHAVE_CONFIG_H", "-I" + os.path.join(VERIF, "harness", "python"),
                                           "-isystem", "/usr/include/python3.12", "-isystem", DUNE + "/include/dune/python"]
    library = [(f, []) for f in library_sources()]
    sources = list(library)
    parts = {}
    for target, files in modules.items():
        parts[target] = range(len(sources), len(sources) + len(files))
        sources += [(f.replace("REPO", REPO).replace("HARNESS", os.path.join(VERIF, "harness")), list(d)) for f, d in files]
    libs = ["-shared", DUNE + "/lib/libdunecommon.a", "-lopenblas", "-lm", "-ldl", "-lgmpxx", "-lgmp", "-ltbb"]

    def targets(jobs):
        return [(t + ".so", [j for i, j in enumerate(jobs) if i < len(library) or i in parts[t]]) for t in modules]

    def finish(tmp, out):
        package = os.path.join(tmp, "dune", "geometry")
        os.makedirs(package)
        for f in glob.glob(os.path.join(REPO, "python", "dune", "geometry", "*.py")):
            shutil.copy(f, package)
        os.rename(os.path.join(tmp, "_geometry.so"), os.path.join(package, "_geometry.so"))
        start = os.path.join(tmp, "bin")
        with open(start, "w") as f:
            f.write("#!/bin/sh\nscript=$1; shift\nHOME=$PWD exec %s/bin/python -I -S -c 'import sys, runpy; sys.path.insert(0, \"%s\"); "
                    "s = sys.argv[1]; sys.argv[0:2] = [s, \"%s\"]; runpy.run_path(s, run_name=\"__main__\")' %s/$script \"$@\"\n"
                    % (DUNE, os.path.join(VERIF, "harness", "python"), out, os.path.join(VERIF, "harness", "python")))
        os.chmod(start, 0o755)

    return compile_binary(check["binary"], sources, flags, libs, finish, targets)


def build(check):
    os.makedirs(BUILD, exist_ok=True)
    if "python" in check:
        return build_python(check)
    flags = check.get("flags", ["-O1"])
    sources = [(os.path.join(VERIF, "harness", s), list(d)) for s, d in check["sources"]]
    if check.get("library", True):
        sources += [(s, check.get("library_flags", [])) for s in library_sources()]
    libs = check.get("libs", [DUNE + "/lib/libdunecommon.a", "-lopenblas", "-lm", "-ldl"])
    return compile_binary(check["binary"], sources, flags, libs)


def toolchain_works():
    with tempfile.TemporaryDirectory(dir=BUILD) as d:
        src = os.path.join(d, "t.cc")
        with open(src, "w") as f:
            f.write("#include <vector>\n#include <dune/common/fvector.hh>\nint main(){ std::vector<Dune::FieldVector<double,2>> v; return int(v.size()); }\n")
        cmd = [CXX] + BASE_FLAGS + ["-isystem", DUNE + "/include", src, DUNE + "/lib/libdunecommon.a", "-o", os.path.join(d, "t")]
        return run_compiler(cmd, os.path.join(d, "log")) and subprocess.run([os.path.join(d, "t")]).returncode == 0


# --------------------------------------------------------------------------
# running


def read_cur(path):
    try:
        with open(path, "rb") as f:
            data = f.read(4096)
        return int.from_bytes(data[:8], "little"), data[8:].split(b"\0")[0].decode(errors="replace")
    except OSError:
        return 0, ""


def harness_env():
    env = dict(os.environ)
    env.update({"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "LC_ALL": "C",
                "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0",
                "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1"})
    return env


def run_one(exe, args, tmp, tag, stall, limit):
    """Run one harness process; returns a dict with its result."""
    cur = os.path.join(tmp, tag + ".cur")
    out = os.path.join(tmp, tag + ".json")
    err = os.path.join(tmp, tag + ".err")
    for f in (cur, out):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [exe] + args + ["--cur", cur, "--out", out]
    start = last_change = time.time()
    counter = -1
    with open(err, "w") as e:
        p = subprocess.Popen(cmd, stdout=e, stderr=e, stdin=subprocess.DEVNULL, env=harness_env(),
                             cwd=tmp, start_new_session=True)
        status = "ok"
        while True:
            try:
                p.wait(timeout=0.05 if time.time() - start < 2 else 0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            c, _ = read_cur(cur)
            if c != counter:
                counter, last_change = c, now
            if now - last_change > stall:
                status = "hang"
            elif now - start > limit:
                status = "limit"
            if status != "ok":
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
    res = {"status": status, "rc": p.returncode, "key": read_cur(cur)[1]}
    with open(err, errors="replace") as e:
        res["stderr"] = e.read()[-3000:]
    if status == "ok":
        if p.returncode in (0, 1) and os.path.exists(out):
            with open(out) as f:
                res["data"] = json.load(f)
        elif p.returncode == 3:
            raise CheckError("harness rejected its arguments: %s\n%s" % (cmd, res["stderr"]))
        else:
            res["status"] = "crash"
    return res


def load_known():
    """known-findings.txt: 'finding: property=<id> key=<regex> <what fails>' / 'fixed: ...' lines."""
    r = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
                if m:
                    r.append((m.group(1), m.group(2), m.group(3)))
    return r


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []   # (key, message)

    def replay_file(self, n, data):
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, n))
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        return path


def describe(res):
    if res["status"] == "hang":
        return "no progress: the case does not terminate"
    if res["status"] == "crash":
        s = res["stderr"].strip().splitlines()
        return "abnormal termination (status %s): %s" % (res["rc"], " | ".join(s[-6:])[:1200])
    return res["status"]


def explore(prop, check, tier, exe, tmp):
    """Run all shards; returns (merged, problems)."""
    extra = ([check["script"]] if "script" in check else []) + check.get("args", []) + (check.get("thorough_args", ["--thorough"]) if tier == "thorough" else check.get("quick_args", []))
    shards = check.get("shards", JOBS)
    stall = check.get("stall", 60)
    limit = check.get("limit", 780) if tier == "quick" else check.get("thorough_limit", 6 * 3600)
    jobs = [extra + ["--shard", "%d/%d" % (i, shards)] for i in range(shards)]
    with concurrent.futures.ThreadPoolExecutor(min(JOBS, shards)) as pool:
        futs = [pool.submit(run_one, exe, a, tmp, "shard%d" % i, stall, limit) for i, a in enumerate(jobs)]
        results = [f.result() for f in futs]
    return extra, jobs, results


def merge(results):
    tot = {"cases": 0, "states": 0, "transitions": 0, "traces": 0, "outcomes": 0, "violation_count": 0}
    samples, counters, maxima, viol = [], {}, {}, []
    for r in results:
        d = r.get("data")
        if not d:
            continue
        for k in tot:
            tot[k] = max(tot[k], d[k]) if k == "outcomes" else tot[k] + d[k]
        samples.append(d["samples"])
        for k, v in d["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in d["maxima"].items():
            maxima[k] = max(maxima.get(k, v), v)
        viol += d["violations"]
    flat = []
    for i in range(12):
        for s in samples:
            if i < len(s) and len(flat) < 12:
                flat.append(s[i])
    return tot, flat, counters, maxima, viol


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--list", action="store_true")
    opt = ap.parse_args()

    if opt.list:
        for k in sorted(CHECKS):
            print(k)
        return 0
    if opt.setup:
        os.makedirs(BUILD, exist_ok=True)
        tree_hash()
        binaries = {}
        for k in sorted(CHECKS):
            binaries.setdefault(CHECKS[k]["binary"], k)
        with concurrent.futures.ThreadPoolExecutor(max(1, JOBS // 2)) as pool:
            for k, (exe, log) in zip(binaries.values(), pool.map(lambda k: build(CHECKS[k]), binaries.values())):
                print(k, exe or ("FAILED " + str(log)), flush=True)
        return 0

    prop = opt.property
    if prop not in CHECKS:
        raise CheckError("no check for property %r" % prop)
    check = CHECKS[prop]
    start = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)

    exe, log = build(check)
    report = Report(prop)
    if exe is None:
        with open(log, errors="replace") as f:
            text = f.read()
        if not toolchain_works():
            raise CheckError("the toolchain is broken")
        print(text[-6000:])
        path = report.replay_file(0, {"property": prop, "kind": "compile", "command": text.splitlines()[0], "log": text[-20000:]})
        write_evidence(prop, check, opt.tier, start, None, 1, "the public interface no longer compiles")
        print("the public interface exercised by this check no longer compiles")
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1

    tmp = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        if opt.replay:
            with open(opt.replay) as f:
                rp = json.load(f)
            if rp.get("kind") == "compile":
                print("the public interface compiles")
                return 0
            args = rp["args"] + (["--only", rp["key"]] if rp.get("key") else [])
            r = run_one(exe, args, tmp, "replay", check.get("stall", 60) * 2, 3600)
            bad = r["status"] != "ok" or r["rc"] != 0
            for v in (r.get("data") or {}).get("violations", []):
                print(v["key"], ":", v["message"])
            if r["status"] != "ok":
                print(describe(r))
            if bad:
                print("VIOLATION property=%s replay=%s" % (prop, opt.replay))
            else:
                print("replay passes")
            return 1 if bad else 0
        return decide(prop, check, opt, exe, tmp, report, start)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, check, opt, exe, tmp, report, start):
    extra, jobs, results = explore(prop, check, opt.tier, exe, tmp)
    tot, samples, counters, maxima, viol = merge(results)
    stall = check.get("stall", 60)

    confirmed = []          # (key, message, args)
    doubts = []             # what did not replay
    keys = []
    for v in viol:
        if v["key"] not in keys:
            keys.append(v["key"])
    # replay before report
    for key in keys[:8]:
        if confirmed and time.time() - start > 600:
            break
        r = run_one(exe, extra + ["--only", key], tmp, "confirm", stall * 2, 1800)
        msgs = [v["message"] for v in (r.get("data") or {}).get("violations", [])]
        if r["status"] != "ok":
            msgs.append(describe(r))
        if msgs:
            confirmed.append((key, msgs, extra))
        else:
            # depends on what ran before in the same process: replay the shard
            again = []
            for i, res in enumerate(results):
                if res.get("data") and any(v["key"] == key for v in res["data"]["violations"]):
                    r = run_one(exe, jobs[i], tmp, "confirm", stall * 2, 1800)
                    again = [v["message"] for v in (r.get("data") or {}).get("violations", []) if v["key"] == key]
                    break
            if again:
                confirmed.append((None, ["%s: %s" % (key, m) for m in again], jobs[i]))
            else:
                doubts.append("violation of case %s did not replay" % key)
    crashes = hangs = 0
    for i, res in enumerate(results):
        if res["status"] == "ok":
            continue
        if res["status"] == "limit":
            doubts.append("time limit reached in shard %d at case %s" % (i, res["key"]))
            continue
        if crashes >= 3 or hangs >= 1 or (confirmed and time.time() - start > 600):
            continue
        key = res["key"]
        r = run_one(exe, extra + ["--only", key], tmp, "confirm", stall * 2, 1800)
        crashes += r["status"] == "crash"
        hangs += r["status"] == "hang"
        if r["status"] in ("crash", "hang"):
            confirmed.append((key, [describe(r)], extra))
            continue
        if r.get("data") and r["data"]["violations"]:
            confirmed.append((key, [v["message"] for v in r["data"]["violations"]], extra))
            continue
        r = run_one(exe, jobs[i], tmp, "confirm", stall * 2, 1800)
        if r["status"] in ("crash", "hang"):
            confirmed.append((None, ["%s (case %s)" % (describe(r), r["key"])], jobs[i]))
        else:
            doubts.append("%s in case %s did not replay:\n%s" % (res["status"], key, res["stderr"]))
    if doubts and not confirmed:
        raise CheckError("; ".join(doubts))

    known = [k for k in load_known() if k[0] == prop]
    hit, fresh = set(), []
    for c in confirmed:
        for k in known:
            if c[0] is not None and re.fullmatch(k[1], c[0]):
                hit.add(k)
                break
        else:
            fresh.append(c)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))

    write_evidence(prop, check, opt.tier, start, (tot, samples, counters, maxima), len(fresh), None)
    print("property %s: %d cases, %d states, %d transitions, %d distinct outcomes, %.1f s"
          % (prop, tot["cases"], tot["states"], tot["transitions"], tot["outcomes"], time.time() - start))
    if not fresh:
        lo = check.get("min_transitions", 1)
        if tot["transitions"] < lo:
            raise CheckError("vacuous exploration: only %d transitions" % tot["transitions"])
        return 0
    for n, (key, msgs, args) in enumerate(fresh):
        print("case %s" % key)
        for m in msgs[:3]:
            print("   ", m)
        path = report.replay_file(n, {"property": prop, "kind": "case", "key": key, "args": args, "messages": msgs,
                                      "how": "cd /verif && python3 run.py %s --replay <this file>" % prop})
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def write_evidence(prop, check, tier, start, data, violations, note):
    cov = {}
    if data:
        tot, samples, counters, maxima = data
        cov = {"states": tot["states"], "transitions": tot["transitions"],
               "traces_validated_against_impl": tot["traces"], "samples": samples,
               "distinct_outcomes_per_shard_max": tot["outcomes"], "exhaustive": violations == 0}
        if counters:
            cov["counters"] = counters
        if maxima:
            cov["maxima"] = maxima
    cov["explanation"] = (note + "; " if note else "") + check["explanation"]
    cov["bounds"] = check["bounds"][tier] if isinstance(check["bounds"], dict) else check["bounds"]
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED") or 0), "level": "model_checking",
          "coverage": cov, "wall_s": round(time.time() - start, 2), "violations": violations,
          "assumptions": check.get("assumptions", [])}
    path = os.path.join(EVIDENCE, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("check error:", e, file=sys.stderr)
        sys.exit(2)
