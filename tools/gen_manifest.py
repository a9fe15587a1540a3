"""Writes MANIFEST.json (run with the repository's Python)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

T = "deterministic simulation with fault injection: "
TECH = {
    "C01": T + "seeded override nestings over real models, failures injected while a block is entered or runs",
    "C02": T + "seeded interleavings of simulated threads and asyncio tasks, checked against per-context models",
    "C03": T + "seeded instruction-level interleavings of threads that create and copy models, unique-id invariant",
    "C04": T + "seeded instruction-level interleavings of readers on one model against sequential results",
    "C05": T + "seeded orders of overlapping forward and backward passes against a back-to-back reference",
    "C06": T + "seeded instruction-level interleavings of training threads against solo runs",
    "C07": T + "seeded batch orders and splits with interrupted updates, conservation of gradients",
    "C08": T + "simulated workers, parameter server and lossy network in virtual time; conservation and history checks",
    "C09": T + "seeded training histories killed and resumed from checkpoints, refinement against an uninterrupted run",
    "C10": T + "simulated disk with short and torn writes, I/O errors, full disk and crashes",
    "C11": T + "exceptions injected at arbitrary instructions and operations of running calls, state and retry compared",
    "C12": T + "seeded interleavings, abandonment and source failures of batch iterators against a reference batching",
    "C13": T + "seeded logical-clock histories (stalls, jumps, failures) of schedules and optimizers against reference models",
    "C14": T + "seeded interleavings of parameter updates against separately updated parameters",
    "C15": T + "the same seeded program under poisoned memory, other hash seeds, histories and restarts, outputs compared",
    "C16": T + "seeded diverging histories of copied models against separately built shadows",
    "C17": T + "seeded overflow faults against a reference scaler and unscaled training",
    "C18": T + "seeded interleavings and failures of calls on shared operands against the same call in a freshly forked process",
    "C19": T + "seeded histories of tree edits, broken off and repeated, interleaved with batches in flight, against a reference model of the tree",
}
NOTE = ("Seeded search over schedules, fault points and programs: no violation in the explored runs is evidence, not proof. "
        "Every run is repeatable from its seed and a violation is replayed from a minimised case file in a fresh process. "
        "Preemption happens between Python instructions; C extension calls and torch kernels are atomic. ")
NA = {
    "N01": "one call on one input, with no time, concurrency, I/O or fault for it to depend on: a numerical identity, which a simulator cannot decide better than a gradient test",
    "N02": "a pure function of the operands, and no GPU, MPS or TensorFlow backend is installed to compare with",
    "N03": "a pure function of layer definitions and sample data; no schedule, clock, fault or history is involved",
    "N04": "a pure function of the configuration text (confection does the work); nothing for a simulator to control",
    "N05": "a pure function of guesses and truths; nothing for a simulator to control",
    "N07": "a pure function of the sequences; nothing for a simulator to control (that conversions neither alias nor race is part of C04-C06 and C12)",
    "N08": "a static analysis plugin run by mypy; it has no runtime behaviour to simulate",
}


def main():
    from tools import gen_properties
    checks = []
    for p in gen_properties.P:
        i = p["id"]
        if i not in TECH or not os.path.exists(f"{HERE}/props/{i.lower()}.py"):
            continue
        meta = importlib.import_module(f"props.{i.lower()}").META
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py --property {i} --tier quick",
            "thorough_cmd": f"python3 run.py --property {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH[i],
            "level": meta.get("level", "exploration"),
            "level_note": NOTE + "Assumes: " + "; ".join(meta.get("assumptions", []) or ["nothing further"]) + ". Stubs: "
            + ("; ".join(meta["stub"]) or "none") + ".",
        })
    done = {c["property"] for c in checks}
    na = [{"property": k, "reason": v} for k, v in NA.items()]
    na += [{"property": i, "reason": "its check is not finished yet"} for i in TECH if i not in done]
    json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: the simulator uses existing seams (context variables, proxies, Path objects, ops, "
                        "sys.monitoring) and stand-ins installed from outside. Known findings: known_findings.jsonl."},
              open(f"{HERE}/MANIFEST.json", "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


main()
