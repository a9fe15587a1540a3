"""C07: every batch's gradient reaches the update exactly once.

A seeded training history on one real model: several batches (in seeded order and split) between updates, updates that
are interrupted between two parameters and run again.  Oracle: the gradient each batch gives alone on a fresh model
with the same parameters, summed, and a second optimizer that gets the accumulated gradients once per parameter."""
import numpy

from sim import core, zoo
from sim.core import check

from . import common as C

META = {
    "runs": {"quick": 6000, "thorough": 60000},
    "rule": "seeded model, 1-3 updates with 1-4 batches each in seeded order, optionally one batch split into several, "
            "optionally an interrupted update; non-trivial when a step had at least two batches, a split or an interruption",
    "measure": "distinct (model, history) pairs",
    "real": C.REAL,
    "stub": ["the optimizer call is wrapped to fail before the k-th parameter of an interrupted update"],
    "assumptions": ["an interrupted update stops before an optimizer call, not inside one",
                    "batch splitting is checked for layers without dropout, batch statistics or windows across items"],
}

SPLITTABLE = ("F2", "L", "R", "I1", "I2", "LI1", "LI2", "T2", "SS", "LL", "F3", "SP")


def item_independent(m):
    k = zoo.kinds_in(m["spec"])
    if m["tin"] not in SPLITTABLE or k & {"window", "bidi", "premap", "lstm"} or zoo.has_dropout(m["spec"]):
        return False
    # Both LSTM implementations are left out: the C one has the known finding, the generic one computes only the first
    # sequence of a batch (see DESIGN.md).
    # A backward LSTM of PyTorch runs over the padding, so its items depend on each other's lengths.
    return not any(x["k"] == "ptlstm" and x["bi"] for x in zoo.walk_spec(m["spec"]))


def gen(r, tier):
    if r.random() < 0.01:
        m = {"tin": "L", "nI": 2, "spec": {"k": "with_padded", "c": [
            {"k": "lstm", "nI": 2, "nO": 2, "bi": False, "depth": 1, "drop": 0.0}]}}
        return {"m": m, "seed": r.randrange(2 ** 30), "opt": {"kind": "sgd", "lr": 0.1, "L2": 0.0, "wd": False, "clip": 0.0, "avg": False},
                "steps": [{"sizes": [4], "split": [[2, 2]]}], "lstm": True}
    m = zoo.gen(r, {"dropout": False, "depth": r.choice([2, 3])})
    steps = []
    can = item_independent(m)
    opt = C.gen_opt(r)
    plain = r.random() < 0.5
    if plain:
        opt = {"kind": "sgd", "lr": 0.1, "L2": 0.0, "wd": False, "clip": 0.0, "avg": False}
    for _ in range(r.choice([1, 2, 2, 3])):
        sizes = [r.choice([1, 2, 3, 5]) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
        st = {"sizes": sizes, "order": r.random() < 0.5}
        if can and r.random() < 0.6:
            st["split"] = [gen_split(r, s) for s in sizes]
        if plain and r.random() < 0.5:
            st["stop"] = [r.randint(1, 6) for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.2:
            st["skip_update"] = True
        if r.random() < 0.3:
            st["between"] = r.choice(["predict", "bytes", "copy", "grads"])
        steps.append(st)
    return {"m": m, "seed": r.randrange(2 ** 30), "opt": opt, "steps": steps}


def gen_split(r, n):
    out = []
    while n:
        k = r.randint(1, n)
        out.append(k)
        n -= k
    return out


def describe(case):
    return {"model": C.describe_model(case["m"]), "steps": case["steps"], "optimizer": case["opt"]["kind"]}


def split_items(tin, X, parts):
    from thinc.types import Ragged
    out, i = [], 0
    for k in parts:
        if tin in ("F2", "I1", "I2", "L", "LI1", "LI2", "SS", "LL"):
            out.append(X[i:i + k])
        elif tin == "T2":
            out.append((X[0][i:i + k], X[1][i:i + k]))
        elif tin == "F3":
            out.append(numpy.ascontiguousarray(X[:, i:i + k]))
        elif tin == "R":
            a, b = int(X.lengths[:i].sum()), int(X.lengths[:i + k].sum())
            out.append(Ragged(X.dataXd[a:b], X.lengths[i:i + k]))
        elif tin == "SP":
            a, b = int(X[2][:i].sum()), int(X[2][:i + k].sum())
            out.append((X[0][a:b], X[1][a:b], X[2][i:i + k]))
        else:
            raise core.HarnessError(tin)
        i += k
    return out


def grad_of(Y):
    """An output gradient that depends on the output itself only, so that it splits with the batch."""
    from thinc.types import Padded, Ragged
    if isinstance(Y, Ragged):
        return Ragged(grad_of(Y.dataXd), Y.lengths.copy())
    if isinstance(Y, Padded):
        d = grad_of(Y.data)
        for t in range(d.shape[0]):
            d[t, int(Y.size_at_t[t]):] = 0
        return Padded(d, Y.size_at_t.copy(), Y.lengths.copy(), Y.indices.copy())
    if isinstance(Y, tuple) and len(Y) == 4:
        Y = grad_of(Padded(*Y))
        return (Y.data, Y.size_at_t, Y.lengths, Y.indices)
    if isinstance(Y, tuple) and len(Y) == 2 and Y[1].dtype.kind == "i":
        return (grad_of(Y[0]), Y[1].copy())
    if isinstance(Y, (list, tuple)):
        return type(Y)(grad_of(y) for y in Y)
    if Y.dtype.kind == "f":
        return (numpy.tanh(Y) * 0.5 + 0.3).astype("f")
    return numpy.zeros_like(Y)


def set_params(model, other):
    """Copy the parameters (and those of wrapped modules) of `other` to `model`."""
    for a, b in zip(model.walk(), other.walk()):
        for n in b.param_names:
            if b.has_param(n):
                a.set_param(n, b.get_param(n).copy())
        for s, t in zip(a.shims, b.shims):
            s._model.load_state_dict({k: v.clone() for k, v in t._model.state_dict().items()})


def clear(model):
    for a in model.walk():
        for n in a.param_names:
            if a.has_grad(n):
                a.set_grad(n, numpy.zeros_like(a.get_grad(n)))
        for s in a.shims:
            for p in s._model.parameters():
                p.grad = None


class Stop(Exception):
    pass


def run(case, run):
    m, seed = case["m"], case["seed"]
    model = zoo.initialized(m, seed)
    alone = zoo.initialized(m, seed)
    opt, ref = C.build_opt(case["opt"]), C.build_opt(case["opt"])
    total = {}
    for i, st in enumerate(case["steps"]):
        batches = [(b, zoo.batch(m, seed + 100 * i + b, s)) for b, s in enumerate(st["sizes"])]
        # expected contribution of every batch
        set_params(alone, model)
        for b, X in batches:
            clear(alone)
            Y, bp = alone.begin_update(X)
            bp(grad_of(Y))
            for k, g in zoo.grads(alone).items():
                total[k] = total[k] + g if k in total else g
        # what the model does
        todo = []
        for b, X in batches:
            parts = (st.get("split") or {b: None})[b] if st.get("split") else None
            todo += split_items(m["tin"], X, parts) if parts and sum(parts) == st["sizes"][b] else [X]
        rng = core.rng(seed, "order", i)
        if st.get("order"):
            rng.shuffle(todo)
        for X in todo:
            Y, bp = model.begin_update(X)
            bp(grad_of(Y))
            run.steps += 1
            if st.get("between") == "predict":
                model.predict(X)
            elif st.get("between") == "bytes":
                model.to_bytes()
            elif st.get("between") == "copy":
                model.copy()
            elif st.get("between") == "grads":
                model.get_gradients()
        got = zoo.grads(model)
        for k in set(got) | set(total):
            a = got.get(k)
            b = total.get(k)
            if a is None or b is None:
                a = numpy.zeros_like(b) if a is None else a
                b = numpy.zeros_like(a) if b is None else b
            d = zoo.diff(a, b, 5e-4, 5e-6)
            check(d is None, "gradient-sum-differs", lambda: f"step {i}: accumulated gradient of {k} is not the sum over the batches: {d}")
        if len(todo) > 1:
            run.nontrivial = True
        run.log.add(i, len(todo))
        if st.get("skip_update"):
            run.nontrivial = True
            continue
        update(case, st, i, model, opt, ref, run)
        total = {}
        opt.step_schedules()
        ref.step_schedules()
    run.measure.add(core.fp(core.canon([m, case["steps"]])))


def update(case, st, i, model, opt, ref, run):
    before, grads = zoo.params(model), zoo.grads(model, zero_is_none=False)
    # expected values: one optimizer call per parameter that has a gradient
    exp = dict(before)
    for node_i, node in enumerate(model.walk()):
        for j, shim in enumerate(node.shims):
            for name, p in shim._model.named_parameters():
                key = f"{node_i}:{node.name}:shim{j}:"
                if key + "g:" + name in grads:
                    w, _ = ref((shim.id, name), before[key + "p:" + name].copy(), grads[key + "g:" + name].copy())
                    exp[key + "p:" + name] = w
    for node_i, node in enumerate(model.walk()):
        for name in node.param_names:
            key = f"{node_i}:{node.name}:{name}"
            if key in grads:
                w, _ = ref((node.id, name), before[key].copy(), grads[key].copy())
                exp[key] = w
    calls = []
    stops = list(st.get("stop", ()))

    class Wrapped:
        def __call__(self, key, w, g, **kw):
            if stops and len(calls) + 1 >= stops[0]:
                stops.pop(0)
                calls.clear()
                raise Stop("interrupted")
            calls.append(key)
            return opt(key, w, g, **kw)

        def __getattr__(self, name):
            return getattr(opt, name)

    while True:
        try:
            model.finish_update(Wrapped())
            break
        except Stop:
            run.fault("update_interrupted")
            run.nontrivial = True
    after = zoo.params(model)
    for k in exp:
        d = zoo.diff(after[k], exp[k], 2e-5, 2e-7)
        check(d is None, "update-differs", lambda: f"step {i}: {k} after the update is not its value with the accumulated gradient applied once: {d}")
    left = zoo.grads(model)
    check(not left, "gradient-left-over", f"step {i}: gradients are left after the update: {sorted(left)[:5]}")
    if case["opt"]["kind"] == "sgd" and not case["opt"]["L2"]:
        model.finish_update(opt)
        d = zoo.exact(zoo.params(model), after)
        check(d is None, "update-applied-twice", lambda: f"step {i}: a second update without new gradients changed {d}")


def known(case, v):
    if case.get("lstm") and v.cls == "gradient-sum-differs":
        return "lstm-gradient-includes-weights"
    return None


def shrink(case):
    yield from C.shrink_key_list(case, "steps", 1)
    for i, st in enumerate(case["steps"]):
        def put(s2):
            return {**case, "steps": case["steps"][:i] + [s2] + case["steps"][i + 1:]}
        for key in ("split", "stop", "order", "between", "skip_update"):
            if st.get(key):
                yield put({k: v for k, v in st.items() if k != key})
        for b in range(len(st["sizes"])):
            s2 = {**st, "sizes": st["sizes"][:b] + st["sizes"][b + 1:]}
            if st.get("split"):
                s2["split"] = st["split"][:b] + st["split"][b + 1:]
            yield put(s2)
    yield from C.shrink_model(case)
