#!/usr/bin/env python3
"""Check one property:  run.py --property C05 --tier quick|thorough   or   run.py --replay FILE

exit 0: the property held on everything explored (known findings are listed)
exit 1: violation, with a line  VIOLATION property=<id> replay=<path>
exit 2: the check itself failed (build error, harness error, no answer in time)"""
import argparse
import fcntl
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
VENV_PY = "/opt/venv/bin/python"
REPO = os.environ.get("THINC_SIM_REPO", "/repo")  # another tree only for developing the checks (with --no-build)


def env(**extra):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "VERIF_", "MALLOC_"))}
    e.update(PATH="/opt/venv/bin:" + e.get("PATH", ""), PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", BLIS_NUM_THREADS="1", PYTHONPATH=f"{HERE}:{REPO}", PYTHONDONTWRITEBYTECODE="1")
    e.update(extra)
    return e


def build():
    """Rebuild the extension modules from the current tree (a no-op when nothing changed)."""
    lock = open("/tmp/.thinc-sim-build.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.monotonic()
    p = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    lock.close()
    if p.returncode != 0:
        print(p.stdout.decode(errors="replace")[-3000:])
        print("build of /repo failed")
        sys.exit(2)
    return time.monotonic() - t0


def known_findings():
    out = []
    path = HERE / "known_findings.jsonl"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.strip():
                out.append(json.loads(line))
    return out


def lines(path):
    out = []
    if os.path.exists(path):
        for line in open(path):
            try:
                out.append(json.loads(line))
            except ValueError:
                pass
    return out


def spawn(args, tmp, name, **extra):
    err = open(os.path.join(tmp, name + ".err"), "wb")
    return subprocess.Popen([VENV_PY, "-m", "sim.worker", *map(str, args)], cwd=str(HERE), env=env(**extra), stdout=err,
                            stderr=err, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def tail(tmp, name, n=3000):
    try:
        return open(os.path.join(tmp, name + ".err"), "rb").read().decode(errors="replace")[-n:]
    except OSError:
        return ""


def replay_once(path, tmp, name, timeout=700, **extra):
    """Run a replay file in a fresh process; returns its violation (or None), dict with details."""
    out = os.path.join(tmp, name + ".jsonl")
    p = spawn(["case", path, out], tmp, name, **extra)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return {"cls": "no-answer", "msg": "the replay did not end"}, {}
    res = lines(out)
    if p.returncode < 0 and res and "start" in res[-1]:
        return {"cls": "process-crash", "msg": f"the process died with signal {-p.returncode}", "detail": {"stderr": tail(tmp, name)}}, {}
    if p.returncode != 0 and res and "start" in res[-1] and "Timeout (" in tail(tmp, name, 20000):
        return {"cls": "no-progress", "msg": "the run did not end", "detail": {"stack": tail(tmp, name)}}, {}
    done = [r for r in res if r.get("done")]
    if p.returncode != 0 or not done:
        return {"cls": "harness", "msg": tail(tmp, name)}, {}
    return done[0]["violation"], done[0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--count", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--deadline", type=float)
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--digest", action="store_true", help="print the event-log digests of all shards")
    a = ap.parse_args()
    tmp = tempfile.mkdtemp(prefix="thinc-sim-")
    try:
        code = replay_main(a, tmp) if a.replay else check(a, tmp)
    finally:
        subprocess.run(["rm", "-rf", tmp])
    sys.exit(code)


def replay_main(a, tmp):
    if not a.no_build:
        build()
    rep = json.load(open(a.replay))
    v, res = replay_once(os.path.abspath(a.replay), tmp, "replay", **rep.get("env", {}))
    for e in res.get("events", []):
        print("  event", e)
    if v is None:
        print(f"replay of {a.replay}: no violation")
        return 0
    if v["cls"] == "harness":
        print(v["msg"])
        return 2
    print(f"{v['cls']}: {v['msg']}")
    for k, x in v.get("detail", {}).items():
        print(f"  {k}: {x}")
    same = v["cls"] == rep["violation"]["cls"]
    print("replay reproduces the recorded violation" if same else f"another violation than recorded ({rep['violation']['cls']})")
    print(f"VIOLATION property={rep['property']} replay={a.replay}")
    return 1


def check(a, tmp):
    t_all = time.monotonic()
    prop = a.property
    build_s = 0.0 if a.no_build else build()
    meta = json.loads(subprocess.run(
        [VENV_PY, "-c", f"import json,props.{prop.lower()} as m; print(json.dumps(m.META))"], cwd=str(HERE), env=env(),
        stdout=subprocess.PIPE, check=True).stdout)
    count = a.count or meta["runs"][a.tier]
    deadline = a.deadline or {"quick": 240, "thorough": 3000}[a.tier]
    n = max(1, min(a.workers, count))
    procs = []
    for k in range(n):
        out = os.path.join(tmp, f"w{k}.jsonl")
        procs.append((k, out, spawn(["run", prop, a.tier, a.seed, k, n, count, deadline, out], tmp, f"w{k}")))
    t0 = time.monotonic()
    hard = deadline + 300
    for k, out, p in procs:
        try:
            p.wait(max(1, hard - (time.monotonic() - t0)))
        except subprocess.TimeoutExpired:
            for _, _, q in procs:
                kill(q)
            print("simulation did not end in time")
            return 2
    wall_sim = time.monotonic() - t0
    found, errors = [], []
    agg = {"faults": {}, "probes": {}, "steps": 0, "sim_time": 0.0, "measure": set(), "nontrivial": 0, "runs": 0, "known": {},
           "distinct": set()}
    samples, stopped, digests = [], [], []
    for k, out, p in procs:
        res = lines(out)
        for r in res:
            if "violation" in r:
                found.append((r["i"], r["case"], r["violation"], k))
        done = [r for r in res if r.get("done")]
        if done:
            d = done[0]
            for key in ("faults", "probes", "known"):
                for x, c in d["agg"][key].items():
                    agg[key][x] = agg[key].get(x, 0) + c
            for key in ("steps", "sim_time", "nontrivial", "runs"):
                agg[key] += d["agg"][key]
            agg["measure"] |= set(d["agg"]["measure"])
            agg["distinct"] |= set(d["agg"]["distinct"])
            samples += d["samples"]
            digests.append((k, d["digest"]))
            if d["stopped"] is not None:
                stopped.append(d["stopped"])
        elif p.returncode is not None and p.returncode < 0 and res and "start" in res[-1]:
            found.append((res[-1]["start"], None, {"cls": "process-crash", "msg": f"the process died with signal {-p.returncode}",
                                                   "detail": {"stderr": tail(tmp, f"w{k}", 1500)}}, k))
        elif res and "start" in res[-1] and "Timeout (" in tail(tmp, f"w{k}", 20000):
            found.append((res[-1]["start"], None, {"cls": "no-progress", "msg": "the run did not end",
                                                   "detail": {"stack": tail(tmp, f"w{k}", 2500)}}, k))
        else:
            errors.append(f"worker {k} exit {p.returncode}:\n" + tail(tmp, f"w{k}"))
    if a.digest:
        for k, d in sorted(digests):
            print("digest", k, d)
    code = 0
    reported = []
    if found:
        found.sort(key=lambda x: x[0])
        reported.append(report(a, tmp, prop, found[0], n))
        code = 1
    if errors and code == 0:
        print("\n".join(errors))
        print("harness error: no verdict")
        code = 2
    if agg["runs"] == 0 and code == 0:
        print("nothing was explored")
        code = 2
    for kf in known_findings():
        if kf.get("property") == prop and kf.get("status") == "known":
            print(f"KNOWN-FINDING: property={prop} {kf['what']}" + (f" (seen {agg['known'][kf['id']]} times)" if kf["id"] in agg["known"] else ""))
    unknown = set(agg["known"]) - {k["id"] for k in known_findings() if k.get("status") == "known"}
    if unknown and code == 0:
        print(f"harness error: findings not in the known-findings file: {unknown}")
        code = 2
    wall = time.monotonic() - t_all
    if not a.no_evidence and code in (0, 1):
        evidence(a, prop, meta, agg, samples, stopped, wall, wall_sim, build_s, n, count, reported)
    print(f"{prop} {a.tier} seed={a.seed}: {agg['runs']} runs in {wall_sim:.1f} s simulation ({wall:.1f} s total), "
          f"{len(agg['measure'])} distinct, faults {sum(agg['faults'].values())}"
          + (f", STOPPED by the time cap before {count} runs" if stopped else ""))
    return code


def report(a, tmp, prop, item, n):
    """Minimise, write the replay file, confirm it in a fresh process."""
    i, case, v, shard = item
    rdir = HERE / "replays"
    rdir.mkdir(exist_ok=True)
    path = rdir / f"{prop}-{a.tier}-s{a.seed}-i{i}.json"
    if case is None:
        case = gen_case(prop, a, i)
    rep = {"property": prop, "tier": a.tier, "seed": a.seed, "index": i, "case": case, "violation": v, "history": []}
    path.write_text(json.dumps(rep, indent=1))
    got, res = replay_once(str(path), tmp, "confirm0")
    ok = got is not None and got["cls"] == v["cls"]
    if not ok:
        # The violation needs what ran before it in the same process.
        hist = [gen_case(prop, a, j) for j in range(shard, i, n)]
        for m in (1, 4, 16, len(hist)):
            if m > len(hist) and m != len(hist):
                continue
            rep["history"] = hist[len(hist) - m:]
            path.write_text(json.dumps(rep, indent=1))
            got, res = replay_once(str(path), tmp, f"confirm-h{m}")
            ok = got is not None and got["cls"] == v["cls"]
            if ok:
                break
    elif v["cls"] not in ("process-crash", "no-progress"):
        out = os.path.join(tmp, "mini.jsonl")
        budget = 60 if a.tier == "quick" else 300
        p = spawn(["mini", str(path), out, budget], tmp, "mini")
        try:
            p.wait(budget + 320)
        except subprocess.TimeoutExpired:
            kill(p)
        res = [r for r in lines(out) if r.get("done")]
        if res and res[0].get("minimised") is not None:
            small = {**rep, "case": res[0]["minimised"], "violation": res[0]["violation"], "original_case": case}
            mpath = str(path) + ".min"
            Path(mpath).write_text(json.dumps(small, indent=1))
            got2, res2 = replay_once(mpath, tmp, "confirm1")
            if got2 is not None and got2["cls"] == v["cls"]:
                os.replace(mpath, path)
                rep, got = small, got2
            else:
                os.unlink(mpath)
    rep["confirmed_in_fresh_process"] = bool(ok)
    path.write_text(json.dumps(rep, indent=1))
    v = rep["violation"]
    print(f"violation in run {i} (seed {a.seed}): {v['cls']}: {v['msg'][:1500]}")
    for k, x in v.get("detail", {}).items():
        print(f"  {k}: {str(x)[:1500]}")
    print("  minimised case: " + json.dumps(rep["case"])[:1500])
    if not ok:
        print("  (not reproduced in a fresh process)")
    print(f"VIOLATION property={prop} replay={path}")
    return {"id": f"{prop}-i{i}", "what": f"{v['cls']}: {v['msg'][:300]}", "replay": str(path)}


def gen_case(prop, a, i):
    code = ("import json,sys,props.%s as m; from sim import core;"
            "print(json.dumps(m.gen(core.rng('case','%s',%d,%d),'%s')))" % (prop.lower(), prop, a.seed, i, a.tier))
    return json.loads(subprocess.run([VENV_PY, "-c", code], cwd=str(HERE), env=env(), stdout=subprocess.PIPE, check=True).stdout)


def evidence(a, prop, meta, agg, samples, stopped, wall, wall_sim, build_s, n, count, reported):
    d = HERE / "evidence"
    d.mkdir(exist_ok=True)
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": meta.get("level", "exploration"),
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["distinct"]),
            "rule": meta["rule"],
            "samples": (samples or [{"note": "none"}])[:5],
            "runs_per_hour_one_seed_each": round(agg["runs"] / max(wall_sim, 1e-6) * 3600),
            "workers": n,
            "simulated_steps": agg["steps"],
            "simulated_seconds": round(agg["sim_time"], 3),
            "faults_injected": agg["faults"],
            "probes_hit": agg["probes"],
            "distinct_states_or_interleavings": len(agg["measure"]),
            "distinct_measure": meta["measure"],
            "real_components": meta["real"],
            "stub_components": meta["stub"],
            "planned_runs": count,
            "stopped_by_time_cap": bool(stopped),
            "known_findings_seen": agg["known"],
            "build_s": round(build_s, 1),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": reported,
    }
    (d / f"{prop}.json").write_text(json.dumps(ev, indent=1))


if __name__ == "__main__":
    main()
