"""C04: reading from a model is free of side effects and safe in parallel.

Simulated caller threads predict with, serialise, copy and walk one real model; the seeded scheduler preempts them
at instructions of the code under test.  Oracle: an identical model read by one caller alone, and a full snapshot of
the model, the callers' arrays and the random generators before and after."""
from sim import core, zoo
from sim.core import check

from . import common as C

META = {
    "runs": {"quick": 3000, "thorough": 40000},
    "rule": "seeded model, 2-4 caller threads with 1-4 read-only calls each, seeded preemption; non-trivial when at "
            "least one preemption inside the code under test happened",
    "measure": "distinct sequences of (thread, function, instruction offset, next thread)",
    "real": C.REAL,
    "stub": ["thread scheduler", "locks of the code under test"],
    "assumptions": ["preemption happens at bytecode instructions of thinc; numpy, torch and C kernels run atomically"],
}

OPS = ["predict"] * 6 + ["bytes", "dict", "copy", "walk", "can_from", "grads", "call"]


def gen(r, tier):
    n = r.choice([2, 2, 3, 4])
    race = r.random() < 0.02
    if race and r.random() < 0.3:
        race = "bytes"
        m = {"tin": "F2", "nI": 3, "spec": {"k": "tscript", "arch": "mlp", "nI": 3, "nO": 2, "v": 3}}
    elif race:
        m = {"tin": "F2", "nI": 3, "spec": {"k": "torch", "arch": "drop", "nI": 3, "nO": 2, "v": 3}}
    else:
        m = zoo.gen(r, {"depth": 3 if tier == "quick" else r.choice([2, 3, 4])})
    sizes = [r.choice([1, 2, 3]) for _ in range(3)]
    if r.random() < 0.4:
        sizes = [2, 2, 2]
    ops = {"bytes": ["predict", "bytes"], True: ["predict"], False: OPS}[race]
    threads = [[[r.choice(ops), r.randrange(3)] for _ in range(r.randint(1, 4))] for _ in range(n)]
    if not race and any(op != "predict" for t in threads for op, _ in t):
        # the serialised form of a TorchScript module contains the mode it is in: see the finding torchscript-bytes-race
        for s in zoo.walk_spec(m["spec"]):
            if s["k"] == "tscript":
                s["k"] = "torch"
    return {"m": m, "seed": r.randrange(2 ** 30), "sizes": sizes, "threads": threads, "sched": C.gen_sched(r, n),
            "trained": r.random() < 0.5, "race": race}


def describe(case):
    return {"model": C.describe_model(case["m"]), "threads": [" ".join(a for a, _ in t) for t in case["threads"]],
            "sched": {k: v for k, v in case["sched"].items() if k != "seed"}}


def fresh(case):
    m = case["m"]
    model = zoo.initialized(m, case["seed"])
    if case["trained"]:
        C.seed_all(case["seed"])
        C.train_step(model, m, case["seed"] + 5, 2)
    return model


def clean(state):
    for k, v in state.items():
        if ":shim" in k and isinstance(v, dict):
            v.pop("training", None)
    return state


def run(case, run):
    m, seed = case["m"], case["seed"]
    ref = fresh(case)
    exp = [zoo.snapshot(ref.predict(zoo.batch(m, seed + 50 * b, case["sizes"][b]))) for b in range(3)]
    model = fresh(case)
    X = [zoo.batch(m, seed + 50 * b, case["sizes"][b]) for b in range(3)]
    xs = [zoo.snapshot(x) for x in X]
    state = clean(zoo.full_state(model))
    own = model.to_bytes()
    grads = zoo.grads(model, zero_is_none=False)
    orders = {o: [x.id for x in model.walk(order=o)] for o in ("bfs", "dfs_pre", "dfs_post")}
    held = []
    C.seed_all(seed)
    rng0 = C.rng_state()

    def thread(prog):
        def body():
            for op, b in prog:
                run.log.add(op, b)
                if op == "predict":
                    Y = model.predict(X[b])
                    C.eq(zoo.snapshot(Y), exp[b], "prediction-differs", f"predict(batch {b}) in parallel")
                    held.append((f"prediction for batch {b}", Y, zoo.snapshot(Y)))
                elif op == "call":
                    Y, _ = model(X[b], is_train=False)
                    C.eq(zoo.snapshot(Y), exp[b], "prediction-differs", f"model(batch {b}, is_train=False) in parallel")
                    held.append((f"output for batch {b}", Y, zoo.snapshot(Y)))
                elif op == "bytes":
                    check(model.to_bytes() == own, "bytes-differ", "to_bytes in parallel")
                elif op == "dict":
                    d = model.to_dict()
                    check(len(d["nodes"]) == len(orders["bfs"]), "dict-differs", "to_dict in parallel")
                elif op == "copy":
                    c = model.copy()
                    check(c.to_bytes() == own, "copy-differs", "bytes of a copy made in parallel")
                    C.eq(zoo.grads(c, zero_is_none=False), grads, "copy-differs", "gradients of a copy made in parallel", exact=True)
                elif op == "walk":
                    for o, ids in orders.items():
                        check([x.id for x in model.walk(order=o)] == ids, "walk-differs", o)
                elif op == "can_from":
                    check(model.can_from_bytes(own), "can-from-differs", "can_from_bytes(own bytes)")
                elif op == "grads":
                    got = {k: g for k, (p, g) in model.get_gradients().items()}
                    check(len(got) <= len(state), "grads-differ", "")
        return body

    s = C.run_threads([thread(p) for p in case["threads"]], case["sched"], run)
    C.raise_thread_errors(s)
    check(zoo.exact(rng0, C.rng_state()) is None, "random-numbers-drawn", "a read-only call drew from a global random generator")
    d = zoo.exact(state, clean(zoo.full_state(model)))
    check(d is None, "model-changed", lambda: f"read-only calls changed the model: {d}")
    check(model.to_bytes() == own, "model-changed", "read-only calls changed the serialised form")
    for b, x in enumerate(X):
        d = zoo.exact(zoo.snapshot(x), xs[b])
        check(d is None, "input-changed", lambda: f"batch {b}: {d}")
    for what, obj, snap in held:
        d = zoo.exact(zoo.snapshot(obj), snap)
        check(d is None, "result-changed", lambda: f"{what} changed after it was returned: {d}")
    for b in range(3):
        C.eq(zoo.snapshot(model.predict(X[b])), exp[b], "prediction-differs", f"predict(batch {b}) afterwards")
    run.nontrivial = run.probes.get("preemptions", 0) > 0


def known(case, v):
    if case.get("race") is True and v.cls == "prediction-differs":
        return "torch-eval-mode-race"
    if case.get("race") == "bytes" and v.cls == "bytes-differ":
        return "torchscript-bytes-race"
    return None


explicit = C.explicit_mode


def shrink(case):
    yield from C.shrink_key_list(case, "threads", 1)
    for i, t in enumerate(case["threads"]):
        for t2 in core.shrink_list(t):
            yield {**case, "threads": case["threads"][:i] + [t2] + case["threads"][i + 1:]}
    yield from C.shrink_sched(case)
    yield from C.shrink_model(case)
    if case["trained"]:
        yield {**case, "trained": False}
