"""Is one seed one exactly repeatable execution?

  determinism.py [--count N] [--seed S] [C01 ...]
Runs the same seeded cases of every property several times: with another number of worker processes (so other cases
run before them in the same process), another PYTHONHASHSEED, and once more unchanged.  The event log, the measure of
the interleaving, the fault counts and the step counts of every single run must agree."""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run as R  # noqa: E402

CONFIGS = [(8, "0"), (5, "17"), (3, "0"), (8, "0")]


def logs(prop, seed, count, workers, hashseed, tmp):
    procs = []
    for k in range(workers):
        out = os.path.join(tmp, f"{prop}-{workers}-{hashseed}-{k}-{os.urandom(3).hex()}.jsonl")
        procs.append((out, R.spawn(["run", prop, "quick", seed, k, workers, count, 3000, out], tmp, f"d{k}",
                                   PYTHONHASHSEED=hashseed, THINC_SIM_LOGS="1")))
    res = {}
    for out, p in procs:
        p.wait()
        for r in R.lines(out):
            if "log" in r:
                res[r["i"]] = {k: r[k] for k in ("log", "measure", "faults", "steps")}
    return res


def main():
    a = sys.argv[1:]
    count = int(a[a.index("--count") + 1]) if "--count" in a else 400
    seed = int(a[a.index("--seed") + 1]) if "--seed" in a else 1
    props = [x for x in a if x.startswith("C")] or [f"C{i:02d}" for i in range(1, 18)]
    bad = 0
    for prop in props:
        tmp = tempfile.mkdtemp(prefix="thinc-det-")
        try:
            all_logs = [logs(prop, seed, count, w, h, tmp) for w, h in CONFIGS]
        finally:
            subprocess.run(["rm", "-rf", tmp])
        diff = [i for i in range(count) if len({str(x.get(i)) for x in all_logs}) > 1]
        missing = [len(x) for x in all_logs]
        for i in diff[:3]:
            for c, x in zip(CONFIGS, all_logs):
                d = x.get(i)
                print("   ", prop, i, c, d and {**d, "measure": hash(str(d["measure"]))})
        bad += bool(diff)
        print(f"{prop}: {count} runs x {len(CONFIGS)} executions, {len(diff)} differ, logged {missing}", flush=True)
    sys.exit(1 if bad else 0)


main()
