"""Decides one property: builds what it needs from /repo's working tree, runs the
monitored workloads, writes the evidence file and exits 0 (held), 1 (violated,
with a VIOLATION line) or 2 (inconclusive: nothing can be said).

  python3 vf/check.py C01 [quick|thorough]
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build as B                      # noqa: E402
from vf.registry import PROPS                  # noqa: E402

VERIF = B.VERIF
JOBS = int(os.environ.get("VF_JOBS", "8"))


def env_for(scratch, flavour="san"):
    e = B.penv()
    e["ASAN_OPTIONS"] = "detect_odr_violation=0:alloc_dealloc_mismatch=0:detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    root = os.path.join(B.BUILD, flavour)
    e["CYCLUS_PATH"] = f"{root}/lib/cyclus"
    e["CYCLUS_NUC_DATA"] = f"{B.TREE}/share/cyclus_nuc_data.h5"
    e["CYCLUS_RNG_SCHEMA"] = f"{B.TREE}/share/cyclus.rng.in"
    e["TMPDIR"] = scratch
    e["HOME"] = scratch
    if flavour == "py":
        e["PYTHONPATH"] = f"{B.PY}/site"
        e["PYTHONHASHSEED"] = "0"
    return e


class Result:
    def __init__(self):
        self.evals = 0
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.violations = []     # (message, replay command)
        self.inconclusive = []

    def add_file(self, d, cmd):
        self.evals += d["evals"]
        for k, v in d["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.distinct.update(d["distinct"])
        for s in d["samples"]:
            if len(self.samples) < 6:
                self.samples.append(s)
        for v in d["violations"]:
            self.violations.append((v["msg"], cmd(v["case"])))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


def run_worker(args):
    cmd, out, env, cwd, limit = args
    err = out + ".err"
    with open(err, "wb") as f:
        try:
            r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=cwd, timeout=limit)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    return rc, out, err


def run_driver(res, pid, job, tier, seed, scratch, limit):
    n = job["quick"] if tier == "quick" else job["thorough"]
    flavour = job.get("flavour", "san")
    env = env_for(scratch, flavour)
    env.update(job.get("env", {}))
    if flavour == "san":
        exe = [f"{B.SAN}/bin/{job['driver']}"]
    else:
        exe = [B.PYTHON, f"{VERIF}/harness/{job['driver']}.py"]
    base = exe + ["--prop", job.get("prop", pid), "--seed", str(seed)]
    if tier == "thorough":
        base.append("--thorough")
    workers = min(JOBS, job.get("workers", JOBS), max(1, n))
    tasks = []
    parts = max(workers, -(-n // job["batch"]) if "batch" in job else 0)  # more processes than cores bounds their memory
    for w in range(parts):
        wd = os.path.join(scratch, f"{job['driver']}.{job.get('prop', pid)}.{w}")
        os.makedirs(wd, exist_ok=True)
        out = os.path.join(wd, "out.json")
        tasks.append((base + ["--from", str(w), "--to", str(n), "--step", str(parts), "--out", out], out, env, wd, limit))
    replay = lambda c: " ".join(base + ["--case", str(c)])
    with cf.ThreadPoolExecutor(workers) as ex:
        for rc, out, err in ex.map(run_worker, tasks):
            d = None
            try:
                d = json.load(open(out))
            except (OSError, ValueError):
                pass
            if d is not None:
                res.add_file(d, replay)
            if rc == 0 and d is not None and d["done"]:
                continue
            text = open(err, errors="replace").read()
            try:
                case = int(open(out + ".case").read().split()[0])
            except (OSError, ValueError, IndexError):
                case = -1
            if rc == "timeout":
                res.inconclusive.append(f"{job['driver']}: wall-clock watchdog after {limit:.0f} s in case {case}")
            elif rc == 3 or case < 0:
                res.inconclusive.append(f"{job['driver']}: could not run (exit {rc}): {text[-800:]}")
            elif rc == 86 or "VF-CPU-LIMIT" in text:
                res.violations.append((f"case {case} did not end within its CPU allowance", replay(case)))
            elif rc == -9:
                res.inconclusive.append(f"{job['driver']}: killed in case {case}")
            else:
                i = max(text.find("ERROR: AddressSanitizer"), text.find("runtime error:"))
                t = text[max(0, i - 200):i + 2500] if i >= 0 else text[-2500:]
                res.violations.append((f"the process died (exit {rc}) in case {case}:\n{t}", replay(case)))
                res.count("dead_workers")


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = PROPS[pid]
    t0 = time.time()
    targets = list(dict.fromkeys(t for j in spec["jobs"] for t in j["targets"]))
    try:
        secs, changed = B.build(targets)
    except B.BuildError as e:
        print(e)
        print(f"INCONCLUSIVE property={pid}: /repo's tree does not build")
        return 2
    print(f"{pid}: built in {secs:.1f} s ({changed} files changed since the last build)", flush=True)
    scratch = tempfile.mkdtemp(prefix=f"vf-{pid}-")
    res = Result()
    try:
        for job in spec["jobs"]:
            left = (840 - (time.time() - t0)) if tier == "quick" else 6 * 3600
            if "driver" in job:
                run_driver(res, pid, job, tier, seed, scratch, max(60, left))
            else:
                job["run"](res, tier, seed, scratch, env_for)
            if res.violations and tier == "quick":
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    need = spec.get("need", {})
    for k in need:
        if not res.violations and res.counts.get(k, 0) < need[k]:
            res.inconclusive.append(f"observed too little: {k}={res.counts.get(k, 0)}, wanted at least {need[k]}")
    if not res.violations and not res.evals:
        res.inconclusive.append("nothing ran")
    known = []
    try:
        for ln in open(os.path.join(VERIF, "known_findings.txt")):
            if ln.startswith(f"KNOWN-FINDING: property={pid} "):
                known.append(ln.strip())
    except OSError:
        pass
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res.evals,
            "distinct_nontrivial": len(res.distinct),
            "rule": spec["rule"],
            "observed": dict(sorted(res.counts.items())),
            "samples": [s[:700] for s in res.samples[:4]] or ["none"],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(res.violations),
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print(k)
    if res.violations:
        os.makedirs(f"{VERIF}/replay", exist_ok=True)
        seen = 0
        for i, (msg, cmd) in enumerate(res.violations[:3]):
            path = f"{VERIF}/replay/{pid}-{seed}-{i}.txt"
            with open(path, "w") as f:
                f.write(f"property {pid}, seed {seed}, tier {tier}\nreplay: {cmd}\n\n{msg}\n")
            print(f"VIOLATION property={pid} replay={path}")
            print("  " + msg.split("\n")[0][:400])
            if "\n" in msg and seen == 0:
                print("    " + "\n    ".join(msg.split("\n")[1:12])[:1500])
            seen += 1
        return 1
    if res.inconclusive:
        for m in res.inconclusive:
            print(f"INCONCLUSIVE property={pid}: {m}")
        return 2
    print(f"HELD property={pid} evaluations={res.evals} distinct={len(res.distinct)} wall={time.time()-t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
