"""Exhaustive-exploration support for the Python harnesses (the counterpart of mc.hh)."""
import hashlib
import json
import mmap
import os
import sys
import time
import traceback


class Explorer:
    def __init__(self, argv):
        self.shard, self.shards = 0, 1
        self.only, self.params = set(), {}
        self.thorough = False
        self.out = self.cur = None
        it = iter(argv)
        for a in it:
            if a == "--shard":
                self.shard, self.shards = map(int, next(it).split("/"))
            elif a == "--only":
                self.only.add(next(it))
            elif a == "--cur":
                self._open(next(it))
            elif a == "--out":
                self.out = next(it)
            elif a == "--thorough":
                self.thorough = True
            elif a == "--param":
                k, _, v = next(it).partition("=")
                self.params[k] = v
            else:
                sys.stderr.write("unknown argument %s\n" % a)
                sys.exit(3)
        self.counter = self.cases = self.transitions = self.traces = self.failures = 0
        self.states, self.outcomes, self.samples = set(), set(), []
        self.violations, self.counters, self.maxima = [], {}, {}
        self.key, self.here = "", 0

    def _open(self, path):
        with open(path, "wb+") as f:
            f.truncate(4096)
            self.cur = mmap.mmap(f.fileno(), 4096)

    def publish(self):
        if self.cur:
            n = int.from_bytes(self.cur[:8], "little") + 1
            b = self.key.encode()[:4000]
            self.cur[:8] = n.to_bytes(8, "little")
            self.cur[8:8 + len(b) + 1] = b + b"\0"

    def run(self, key, f, *args):
        n = self.counter
        self.counter += 1
        if self.only:
            if key not in self.only:
                return
        elif n % self.shards != self.shard or self.enough():
            return
        self.key, self.here = key, 0
        self.publish()
        self.cases += 1
        self.states.add(key)
        if (len(self.samples) < 3 or self.cases & (self.cases - 1) == 0) and len(self.samples) < 12:
            self.samples.append(key)
        try:
            f(*args)
        except Exception as e:
            where = traceback.extract_tb(e.__traceback__)[-1]
            self.fail("unexpected %s: %s (line %s of %s)" % (type(e).__name__, e, where.lineno, os.path.basename(where.filename)))
        self.traces += 1

    def enough(self):
        """Cases that fail may take long: what has been found is reported without looking for more."""
        return len(self.violations) >= 200 or bool(self.violations) and time.monotonic() - self.failed_at > 60

    def state(self, s):
        self.states.add(s)

    def outcome(self, o):
        self.outcomes.add(o)

    def fail(self, message):
        self.failures += 1
        self.here += 1
        if not self.violations:
            self.failed_at = time.monotonic()
        if self.here <= 3 and len(self.violations) < 200:
            self.violations.append({"key": self.key, "message": message[:1500]})

    def expect(self, ok, message):
        self.transitions += 1
        if not ok:
            self.fail(message)
        return ok

    def equal(self, got, want, what):
        self.transitions += 1
        if not (got == want):
            self.fail("%s: got %r, model %r" % (what, got, want))
            return False
        self.outcomes.add(hash(repr(got)))
        return True

    def near(self, got, want, tol, what):
        """Compare numbers or (nested) sequences of numbers."""
        self.transitions += 1
        err = distance(got, want)
        if not err <= tol:
            self.fail("%s: got %r, model %r, difference %g > %g" % (what, plain(got), plain(want), err, tol))
            return False
        if tol > 0:
            self.maxima["worst_error_over_tolerance"] = max(self.maxima.get("worst_error_over_tolerance", 0), err / tol)
        self.outcomes.add(hash(repr(rounded(want))))
        return True

    def refused(self, kinds, f, what):
        """f() must raise one of the given exceptions."""
        self.transitions += 1
        try:
            r = f()
        except kinds:
            return True
        except Exception as e:
            self.fail("%s: raised %s: %s" % (what, type(e).__name__, e))
            return False
        self.fail("%s: accepted, returned %r" % (what, r))
        return False

    def finish(self):
        data = {"cases": self.cases, "states": len(self.states), "transitions": self.transitions, "traces": self.traces,
                "outcomes": len(self.outcomes), "violation_count": self.failures, "samples": self.samples,
                "counters": self.counters, "maxima": self.maxima, "violations": self.violations}
        if self.out:
            with open(self.out, "w") as f:
                json.dump(data, f)
        else:
            json.dump(data, sys.stdout, indent=1)
        sys.stdout.flush()
        os._exit(1 if self.failures else 0)


def plain(v):
    try:
        return [plain(x) for x in v]
    except TypeError:
        return float(v)


def rounded(v):
    v = plain(v)
    return round(v, 6) if isinstance(v, float) else [rounded(x) for x in v]


def distance(a, b):
    a, b = plain(a), plain(b)
    if isinstance(a, float) != isinstance(b, float):
        return float("inf")
    if isinstance(a, float):
        return abs(a - b) if a == a else float("inf")
    if len(a) != len(b):
        return float("inf")
    return max([distance(x, y) for x, y in zip(a, b)], default=0.0)
