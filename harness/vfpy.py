"""Plumbing of the Python drivers: seeded cases, counters, violations, an output
file of the same form as that of the C++ drivers."""
import argparse
import hashlib
import json
import os
import random
import sys
import traceback


class Violated(Exception):
    pass


class State:
    def __init__(self):
        self.evals = 0
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.trace = []


S = State()


def count(k, n=1):
    S.counts[k] = S.counts.get(k, 0) + n


def nontrivial(text):
    S.distinct.add(hashlib.md5(text.encode("utf-8", "replace")).hexdigest()[:16])


def trace(text):
    if len(S.trace) < 400:
        S.trace.append(str(text)[:2000])


def check(ok, msg):
    if not ok:
        raise Violated(msg() if callable(msg) else msg)


class Rng(random.Random):
    def chance(self, p):
        return self.random() < p

    def below(self, n):
        return self.randrange(n)

    def range(self, a, b):
        return self.randint(a, b)

    def logreal(self, a, b):
        import math
        return math.exp(self.uniform(math.log(a), math.log(b)))


def write_out(path, done, case):
    if not path:
        return
    with open(path + ".tmp", "w") as f:
        json.dump({"done": done, "case": case, "evals": S.evals, "counts": S.counts, "distinct": sorted(S.distinct)[:60000],
                   "samples": S.samples, "violations": [{"case": c, "msg": m} for m, c in S.violations]}, f)
    os.replace(path + ".tmp", path)


def run(props):
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--from", dest="frm", type=int, default=0)
    ap.add_argument("--to", type=int, default=1)
    ap.add_argument("--step", type=int, default=1)
    ap.add_argument("--case", type=int, default=None)
    ap.add_argument("--out", default="")
    ap.add_argument("--thorough", action="store_true")
    a = ap.parse_args()
    fn = props[a.prop]
    cases = [a.case] if a.case is not None else range(a.frm, a.to, a.step)
    c = -1
    for c in cases:
        if a.out:
            with open(a.out + ".case", "w") as f:
                f.write("%d\n" % c)
        S.trace = []
        r = Rng("%s/%d/%d" % (a.prop, a.seed, c))
        try:
            fn(r)
        except Violated as e:
            S.violations.append((str(e)[:1500] + "\n--- trace of the case\n" + "\n".join(S.trace)[:3500], c))
        except Exception:
            S.violations.append(("unexpected exception: " + traceback.format_exc()[-1500:] + "\n--- trace of the case\n" + "\n".join(S.trace)[:3000], c))
        S.evals += 1
        if len(S.samples) < 2 and S.trace:
            S.samples.append("\n".join(S.trace)[:600])
        if a.case is not None:
            for m, _ in S.violations:
                print("VIOLATION case %d: %s" % (c, m))
            if not S.violations:
                print("held")
        if len(S.violations) >= 3:
            break
    write_out(a.out, True, c)
    for m, k in S.violations:
        if a.case is None:
            print("VIOLATION case %d: %s" % (k, m))
    sys.stdout.flush()
    os._exit(1 if S.violations and not a.out else 0)
