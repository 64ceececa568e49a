"""Shared by the drivers: contracts evaluated on the real code (PyPy)."""
import json
import os
import random
import signal
import sys
import time
import traceback


class Violation(Exception):
    pass


class Stuck(BaseException):
    pass


def _stuck(*a):
    raise Stuck()


signal.signal(signal.SIGALRM, _stuck)
CASE_S = 8.0


def jsonable(x):
    if isinstance(x, bytes):
        return {"bytes": x.decode("latin-1")}
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        if isinstance(x, str):
            return x.encode("utf-8", "backslashreplace").decode("utf-8")
        return x
    return repr(x)


class Driver(object):
    def __init__(self):
        if len(sys.argv) > 2 and sys.argv[1] == "--replay":
            self.replay = sys.argv[2]
            self.out, self.tier, self.seed = None, "quick", 1
            self.budget, self.shard, self.shards = 60.0, 0, 1
        else:
            self.replay = None
            self.out, self.tier = sys.argv[1], sys.argv[2]
            self.seed, self.budget = int(sys.argv[3]), float(sys.argv[4])
            self.shard, self.shards = int(sys.argv[5]), int(sys.argv[6])
        self.rnd = random.Random(self.seed * 1000003 + self.shard)
        self.t0 = time.time()
        self.n = 0
        self.seen = set()
        self.samples = []
        self.violations = []
        self.known = []
        self.sections = {}
        self.keys = {}

    def left(self):
        return self.budget - (time.time() - self.t0)

    def check(self, section, inp, fn, key=None, nontrivial=True):
        """evaluate one case: fn(inp) raises/returns a string on violation"""
        self.n += 1
        self.sections[section] = self.sections.get(section, 0) + 1
        sig = hash((section, repr(inp)))
        if nontrivial and sig not in self.seen:
            self.seen.add(sig)
            k = sum(1 for s in self.samples if s["section"] == section)
            if k < 2:
                self.samples.append({"section": section,
                                     "input": jsonable(inp)})
        msg = None
        try:
            signal.setitimer(signal.ITIMER_REAL, CASE_S)
            try:
                msg = fn(inp)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Stuck:
            msg = "no result within %d s" % CASE_S
        except MemoryError:
            msg = "runs out of memory"
        except Violation as e:
            msg = str(e)
        except RecursionError:
            msg = None
        except Exception as e:
            msg = "unexpected %s: %s @ %s" % (
                type(e).__name__, str(e)[:200],
                " | ".join(x.strip() for x in traceback.format_exc()
                           .strip().splitlines()[-5:])[:500])
        if msg:
            kk = key or section
            self.keys[kk] = self.keys.get(kk, 0) + 1
            if self.keys[kk] <= 3:
                self.violations.append({
                    "section": section, "key": key or section,
                    "input": jsonable(inp), "what": str(msg)[:1500]})
        return msg

    def finish(self, rule):
        res = {"evaluations": self.n, "distinct_nontrivial": len(self.seen),
               "rule": rule, "samples": self.samples[:12],
               "violations": self.violations, "known": self.known,
               "sections": self.sections}
        if self.out:
            with open(self.out, "w") as f:
                json.dump(res, f)
        else:
            print(json.dumps(res["violations"], indent=1))


def expect(cond, msg="", *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def same(got, want, what):
    if got != want or type(got) != type(want):
        raise Violation("%s: got %r, want %r" % (what, got, want))
