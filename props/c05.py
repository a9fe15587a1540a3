"""C05: backward callbacks of batches in flight are independent of each other.

One simulated caller holds several batches in flight on one real model; the seeded scheduler decides the order of
forward passes, backward callbacks and read-only calls.  Oracle: an identical model on which the batch runs alone,
back to back."""
from sim import core, zoo
from sim.core import check

from . import common as C

META = {
    "runs": {"quick": 6000, "thorough": 60000},
    "rule": "seeded model from the layer grammar, 2-5 batches in flight, seeded order of forward/backward/read calls; "
            "non-trivial when at least two forward passes were in flight at once",
    "measure": "distinct (model, order of operations) pairs",
    "real": C.REAL,
    "stub": ["the caller that holds the callbacks", "global random generators are reseeded per forward pass"],
}


def gen(r, tier):
    m = zoo.gen(r, {"torch_rand": True, "depth": 3 if tier == "quick" else r.choice([2, 3, 4])})
    n = r.choice([2, 2, 3, 3, 4, 5])
    sizes = r.choice([[2] * n, [r.choice([1, 2, 3, 5]) for _ in range(n)], [3] * n])
    ops, todo, flying = [], list(range(n)), []
    while todo or flying:
        x = r.random()
        if x < 0.2:
            ops.append([r.choice(["predict", "predict", "bytes", "copy", "walk", "grads"]), r.randrange(n)])
        elif todo and (not flying or x < 0.65):
            b = todo.pop(0)
            ops.append(["fwd", b])
            flying.append(b)
        else:
            b = flying.pop(r.randrange(len(flying)))
            ops.append(["bwd", b])
    return {"m": m, "seed": r.randrange(2 ** 30), "sizes": sizes, "ops": ops, "same_x": r.random() < 0.15}


def describe(case):
    return {"model": C.describe_model(case["m"]), "order": " ".join(f"{a}{b}" for a, b in case["ops"])}


def run(case, run):
    m, seed = case["m"], case["seed"]
    ints = C.ints_in(m)
    bn = zoo.has_bn(m["spec"])
    n = len(case["sizes"])
    bx = [0 if case["same_x"] else b for b in range(n)]
    X = [zoo.batch(m, seed + 100 * bx[b], case["sizes"][bx[b]]) for b in range(n)]
    # what each batch does alone
    used = sorted({b for op, b in case["ops"] if op in ("fwd", "bwd")})
    alone = {}
    for b in used:
        model = zoo.initialized(m, seed)
        C.seed_all(seed + b)
        Y, bp = model.begin_update(zoo.batch(m, seed + 100 * bx[b], case["sizes"][bx[b]]))
        y = zoo.snapshot(Y)
        dX = bp(zoo.grad_like(Y, seed + b))
        alone[b] = (y, zoo.snapshot(dX), zoo.grads(model, zero_is_none=False))
    model = zoo.initialized(m, seed)
    pred = {}
    if not bn:
        for op, b in case["ops"]:
            if op == "predict" and b not in pred:
                pred[b] = zoo.snapshot(model.predict(zoo.batch(m, seed + 100 * bx[b], case["sizes"][bx[b]])))
        model = zoo.initialized(m, seed)
    held = []  # (what, object, snapshot)
    for b in range(n):
        held.append((f"input of batch {b}", X[b], zoo.snapshot(X[b])))
    total = {}
    flying = {}
    most = 0
    for step, (op, b) in enumerate(case["ops"]):
        where = f"step {step} ({op} {b})"
        if op == "fwd":
            C.seed_all(seed + b)
            Y, bp = model.begin_update(X[b])
            C.eq(zoo.snapshot(Y), alone[b][0], "forward-differs", f"{where}: output of the batch")
            flying[b] = (Y, bp)
            held.append((f"output of batch {b}", Y, zoo.snapshot(Y)))
        elif op == "bwd":
            if b not in flying:
                continue
            Y, bp = flying.pop(b)
            dY = zoo.grad_like(Y, seed + b)
            held.append((f"output gradient of batch {b}", dY, zoo.snapshot(dY)))
            before = zoo.grads(model, zero_is_none=False)
            dX = bp(dY)
            if not ints:
                C.eq(zoo.snapshot(dX), alone[b][1], "input-gradient-differs", f"{where}: input gradient")
                held.append((f"input gradient of batch {b}", dX, zoo.snapshot(dX)))
            after = zoo.grads(model, zero_is_none=False)
            for key, g in alone[b][2].items():
                total[key] = g if key not in total else total[key] + g
                check(key in after, "gradient-lost", f"{where}: no gradient for {key}")
            for key in after:
                check(key in total, "gradient-unexpected", f"{where}: gradient for {key} that the batch does not give alone")
            C.eq(after, total, "parameter-gradient-differs", f"{where}: accumulated gradients after this callback")
            del before
        elif op == "predict":
            Y = model.predict(X[b])
            if b in pred:
                C.eq(zoo.snapshot(Y), pred[b], "prediction-differs", where)
            held.append((f"prediction at step {step}", Y, zoo.snapshot(Y)))
        elif op == "bytes":
            model.to_bytes()
        elif op == "copy":
            model.copy()
        elif op == "walk":
            list(model.walk())
        elif op == "grads":
            model.get_gradients()
        most = max(most, len(flying))
        run.steps += 1
        run.log.add(op, b)
        for what, obj, snap in held:
            d = zoo.exact(zoo.snapshot(obj), snap)
            check(d is None, "held-array-changed", lambda: f"{where} changed the {what}: {d}")
    run.nontrivial = most >= 2
    run.probe("in_flight_max_%d" % min(most, 5))
    run.measure.add(core.fp((repr(m["spec"]), repr(case["ops"]))))


def shrink(case):
    yield from C.shrink_key_list(case, "ops", 1)
    yield from C.shrink_model(case)
    for i, s in enumerate(case["sizes"]):
        if s > 1:
            yield {**case, "sizes": case["sizes"][:i] + [1] + case["sizes"][i + 1:]}
    if case["m"].get("ops"):
        yield {**case, "m": {k: v for k, v in case["m"].items() if k != "ops"}}
