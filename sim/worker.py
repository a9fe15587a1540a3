"""One simulation process: runs a shard of the seeded cases of one property, or one replay file.

  python -m sim.worker run   PROP TIER SEED SHARD NSHARDS COUNT DEADLINE_S OUT
  python -m sim.worker case  FILE OUT       run the case(s) of a replay file once
  python -m sim.worker mini  FILE OUT BUDGET_S   minimise the last case of a replay file

Results are JSON lines in OUT.  The case about to run is announced first, so that a process that dies is
attributable to its case."""
import faulthandler
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import core  # noqa: E402


CASE_S = 150  # a run that takes longer makes no progress (runs take about a second)


def load(prop):
    import warnings
    warnings.filterwarnings("ignore")
    from sim import sched
    sched.install_lock_seam()
    mod = importlib.import_module("props." + prop.lower())
    # All of the code under test is imported first: what a run executes must not depend on what earlier runs imported.
    import pkgutil
    import thinc
    for x in pkgutil.walk_packages(thinc.__path__, "thinc."):
        if ".tests" not in x.name and ".mypy" not in x.name and not x.name.startswith("thinc.extra.tests"):
            try:
                importlib.import_module(x.name)
            except ImportError:
                pass  # another framework that is not installed
    if hasattr(mod, "setup"):
        mod.setup()
    return mod


def execute(mod, case, keep_log=False):
    """Run one case. Returns (run, violation or None); harness errors propagate."""
    run = core.Run(keep_log)
    try:
        mod.run(case, run)
        return run, None
    except core.Violation as v:
        return run, v
    except core.HarnessError:
        raise
    except Exception as e:
        # Also when the traceback shows only the simulator: what it was handed is not what thinc hands out normally.
        v = core.Violation("unexpected-exception", f"{type(e).__name__}: {e}"[:400])
        v.detail["traceback"] = core.fmt_exc(e)
        v.detail["in_thinc"] = core.from_thinc(e)
        return run, v


def viol_json(v):
    return {"cls": v.cls, "msg": v.msg[:2000], "detail": {k: str(x)[:4000] for k, x in v.detail.items()}}


def run_shard(prop, tier, seed, shard, n, count, deadline, out):
    mod = load(prop)
    t0 = time.monotonic()
    f = open(out, "a", buffering=1)
    agg = {"faults": {}, "probes": {}, "steps": 0, "sim_time": 0.0, "measure": set(), "nontrivial": 0, "runs": 0,
           "known": {}, "distinct": set()}
    samples = []
    digest = core.Log()
    stopped = None
    for i in range(shard, count, n):
        if time.monotonic() - t0 > deadline:
            stopped = i
            break
        case = mod.gen(core.rng("case", prop, seed, i), tier)
        f.write(json.dumps({"start": i}) + "\n")
        faulthandler.dump_traceback_later(CASE_S, exit=True)
        try:
            run, v = execute(mod, case)
        except core.SimCrash:
            raise core.HarnessError("SimCrash escaped")
        finally:
            faulthandler.cancel_dump_traceback_later()
        agg["runs"] += 1
        for k, x in run.faults.items():
            agg["faults"][k] = agg["faults"].get(k, 0) + x
        for k, x in run.probes.items():
            agg["probes"][k] = agg["probes"].get(k, 0) + x
        agg["steps"] += run.steps
        agg["sim_time"] += run.sim_time
        agg["measure"] |= run.measure
        if run.nontrivial:
            agg["nontrivial"] += 1
            agg["distinct"].add(core.derive(core.canon(case)))
        digest.add(i, run.log.digest())
        if os.environ.get("THINC_SIM_LOGS"):
            f.write(json.dumps({"i": i, "log": run.log.digest(), "measure": sorted(str(x) for x in run.measure),
                                "faults": run.faults, "steps": run.steps}) + "\n")
        if len(samples) < 2:
            samples.append({"case": i, **(mod.describe(case) if hasattr(mod, "describe") else {"case_json": core.canon(case)[:300]})})
        if v is not None:
            kid = mod.known(case, v) if hasattr(mod, "known") else None
            if kid:
                agg["known"][kid] = agg["known"].get(kid, 0) + 1
                continue
            f.write(json.dumps({"violation": viol_json(v), "i": i, "case": case, "explicit": run.explicit}) + "\n")
            break
    agg["measure"] = [format(x & (2 ** 64 - 1), "x") if isinstance(x, int) else str(x) for x in agg["measure"]]
    agg["distinct"] = [format(x, "x") for x in agg["distinct"]]
    f.write(json.dumps({"done": True, "agg": agg, "samples": samples, "digest": digest.digest(), "stopped": stopped,
                        "wall": time.monotonic() - t0}) + "\n")


def run_case(path, out):
    rep = json.load(open(path))
    mod = load(rep["property"])
    f = open(out, "a", buffering=1)
    faulthandler.dump_traceback_later(600 if rep.get("history") else CASE_S, exit=True)
    for case in rep.get("history", []):
        execute(mod, case)
    f.write(json.dumps({"start": rep.get("index", 0)}) + "\n")
    run, v = execute(mod, rep["case"], keep_log=True)
    f.write(json.dumps({"violation": viol_json(v) if v else None, "log": run.log.digest(), "events": run.log.events[-200:],
                        "explicit": run.explicit, "done": True}) + "\n")


def minimise(path, out, budget):
    rep = json.load(open(path))
    mod = load(rep["property"])
    t0 = time.monotonic()
    cls = rep["violation"]["cls"]
    last = [None]

    def fails(case):
        try:
            run, v = execute(mod, case)
        except Exception:
            return False
        if v is not None and v.cls == cls and not (hasattr(mod, "known") and mod.known(case, v)):
            last[0] = (case, v, run.explicit)
            return True
        return False

    def left():
        return time.monotonic() - t0 < budget

    case = rep["case"]
    f = open(out, "a", buffering=1)
    faulthandler.dump_traceback_later(int(budget) + 300, exit=True)
    if not fails(case):
        f.write(json.dumps({"minimised": None, "done": True}) + "\n")
        return
    # Fix the schedule first, so that the rest of the case can shrink without moving it.
    if last[0][2] is not None and hasattr(mod, "explicit"):
        c2 = mod.explicit(case, last[0][2])
        if fails(c2):
            case = c2
    small = core.minimise(case, fails, mod.shrink, left)
    fails(small)
    f.write(json.dumps({"minimised": small, "violation": viol_json(last[0][1]), "done": True}) + "\n")


def main():
    cmd, a = sys.argv[1], sys.argv[2:]
    if cmd == "run":
        run_shard(a[0], a[1], int(a[2]), int(a[3]), int(a[4]), int(a[5]), float(a[6]), a[7])
    elif cmd == "case":
        run_case(a[0], a[1])
    elif cmd == "mini":
        minimise(a[0], a[1], float(a[2]))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
