"""C11: a failed call leaves the model as it was and can be retried.

Forward passes, predictions, serialisations, copies and compatibility checks on one real model are hit by exceptions at
seeded instructions or array operations, several times in a row.  Oracle: a full snapshot before the call, and an
identical model on which nothing ever failed."""
import asyncio

import numpy

from sim import core, instr, zoo
from sim.core import check

from . import common as C
from .c04 import clean

META = {
    "runs": {"quick": 4000, "thorough": 120000},
    "rule": "seeded model whose initialisation may fail first, and 1-6 calls, each failing 0-3 times at a seeded instruction or array operation before it is "
            "repeated; non-trivial when a fault fired inside the code under test",
    "measure": "distinct (call, function and instruction of the fault) pairs",
    "real": C.REAL,
    "stub": ["array operations that fail on demand", "exceptions raised at instructions of thinc that can fail"],
    "assumptions": ["faults hit Python instructions of thinc or whole array operations, not the middle of a C kernel",
                    "training mode flag and batch statistics of wrapped modules are not part of the compared state"],
}

OPS = ["predict"] * 4 + ["train"] * 5 + ["call", "bytes", "bytes", "dict", "copy", "copy", "can_bytes", "can_dict", "can_other", "walk", "grads"]
EXC = ["fault", "kbd", "mem", "cancel", "stop", "value"]
ARRAY_OPS = ["alloc", "alloc1f", "alloc2f", "alloc3f", "alloc4f", "alloc1i", "alloc_f", "gemm", "affine", "flatten", "unflatten", "pad", "unpad",
             "list2padded", "padded2list", "get_dropout_mask", "seq2col", "maxout", "relu", "mish", "softmax", "reduce_sum", "reduce_mean",
             "reduce_max", "reduce_first", "reduce_last", "hash", "ngrams", "asarray", "asarray1i", "asarray1f", "asarray2f", "asarray_f",
             "as_contig", "lstm_forward_training", "lstm_forward_inference", "clipped_linear", "gelu", "swish", "dish", "hard_swish",
             "gather_add", "sigmoid", "softmax_sequences", "reshape2f", "reshape3f", "xp2"]


def make_exc(kind):
    return {"fault": core.InjectedFault("injected"), "kbd": KeyboardInterrupt(), "mem": MemoryError("injected"),
            "cancel": asyncio.CancelledError(), "stop": StopIteration("injected"), "value": ValueError("injected")}[kind]


def gen(r, tier):
    m = zoo.gen(r, {"depth": r.choice([1, 2, 3]), "torch_rand": r.random() < 0.3})
    while zoo_has_bn(m):  # a failed call may already have counted its batch in the running statistics
        m = zoo.gen(r, {"depth": 2})
    ops = OPS
    if r.random() < 0.04:
        m = {"tin": "F2", "nI": 3, "spec": {"k": "resizable", "nI": 3, "nO": 2}}
        ops = OPS + ["resize"] * 8

    def faults(ns):
        return [["instr", r.random(), r.choice(EXC)] if r.random() < 0.75 else ["op", r.randint(1, 8), r.choice(EXC)]
                for _ in range(r.choice(ns))]

    calls = [[r.choice(ops), r.randrange(3), faults([0, 1, 1, 2, 3]), r.random() < 0.3] for _ in range(r.choice([1, 2, 3, 6]))]
    # initialisations that fail: the first one, or a repeated one of an initialised model
    init = faults([1, 1, 2]) if r.random() < 0.3 else []
    return {"m": m, "seed": r.randrange(2 ** 30), "calls": calls, "trained": r.random() < 0.5, "ctx": r.randrange(4), "init": init}


def describe(case):
    return {"model": C.describe_model(case["m"]), "calls": [[op, f] for op, b, f, o in case["calls"]], "context": case["ctx"], "init": case["init"]}


def fresh(case):
    m = case["m"]
    model = zoo.initialized(m, case["seed"])
    if case["trained"]:
        C.seed_all(case["seed"])
        C.train_step(model, m, case["seed"] + 5, 2)
    return model


def unready(case):
    t_seed(case["seed"])
    with zoo.backend(case["m"].get("ops")):
        return zoo.build(case["m"]["spec"])


def t_seed(seed):
    import thinc.api
    thinc.api.fix_random_seed(seed % (2 ** 31))


def shape(model):
    return [[x.name, {n: x.maybe_get_dim(n) for n in x.dim_names}, sorted(x.param_names), [n for n in x.ref_names if x.has_ref(n)]]
            for x in model.walk()]


def failed_init(case, run):
    """An initialisation that fails and is repeated ends where one that never failed does."""
    m, seed = case["m"], case["seed"]
    model, twin = unready(case), unready(case)
    X = zoo.batch(m, seed + 1, 3)
    xs = zoo.snapshot(X)
    ctx = context()

    def init(which):
        t_seed(seed + 7)
        which.initialize(X=X)

    with instr.Counter() as c:
        init(twin)
    for how, at, exc in case["init"]:
        inj = instr.FailAt(int(at * c.count) + 1, make_exc(exc)) if how == "instr" else FailingOps(model, at, make_exc(exc))
        try:
            with inj:
                init(model)
        except BaseException as e:
            if inj.fired is None:
                raise
            run.fault("init-" + how)
        if inj.fired:
            run.log.add("init", inj.fired)
            run.measure.add(core.derive("init", *inj.fired))
            run.nontrivial = True
        now = context()
        check(now == ctx, "context-changed", lambda: f"failed initialisation: {now} instead of {ctx}")
        d = zoo.exact(zoo.snapshot(X), xs)
        check(d is None, "input-changed", lambda: f"failed initialisation: {d}")
        run.steps += 1
    init(model)
    check(shape(model) == shape(twin), "init-differs", lambda: f"{shape(model)} instead of {shape(twin)}")
    d = zoo.exact(zoo.params(twin), zoo.params(model))
    check(d is None, "init-differs", lambda: f"after an initialisation that failed first: {d}")
    d = zoo.exact(zoo.grads(twin), zoo.grads(model))
    check(d is None, "init-differs", lambda: f"gradients after an initialisation that failed first: {d}")


class FailingOps:
    """The n-th call of any array operation of the model's backends raises."""

    def __init__(self, model, n, exc):
        self.n, self.exc, self.fired = n, exc, None
        self.objs = {id(x.ops): x.ops for x in model.walk()}
        import thinc.api
        o = thinc.api.get_current_ops()
        self.objs[id(o)] = o

    def __enter__(self):
        for o in self.objs.values():
            for name in ARRAY_OPS:
                real = getattr(o, name, None)
                if real is not None:
                    o.__dict__[name] = self.wrap(name, real)
        return self

    def wrap(self, name, real):
        def op(*args, **kwargs):
            self.n -= 1
            if self.n == 0:
                self.fired = (name, 0)
                raise self.exc
            return real(*args, **kwargs)
        return op

    def __exit__(self, *exc):
        for o in self.objs.values():
            for name in ARRAY_OPS:
                o.__dict__.pop(name, None)
        return False


def call(model, m, op, X, other):
    """The calls under test; returns something to finish and compare."""
    if op == "resize":
        from thinc.layers.resizable import resize_model
        resize_model(model, model.layers[0].get_dim("nO") + 1)
        return None
    if op == "predict":
        return model.predict(X)
    if op == "call":
        return model(X, is_train=False)[0]
    if op == "train":
        return model.begin_update(X)
    if op == "bytes":
        return model.to_bytes()
    if op == "dict":
        return model.to_dict()
    if op == "copy":
        return model.copy()
    if op == "can_bytes":
        return model.can_from_bytes(other)
    if op == "can_dict":
        import srsly
        return model.can_from_dict(srsly.msgpack_loads(other))
    if op == "can_other":
        return model.can_from_bytes(other[:len(other) // 2]), model.can_from_bytes(other, strict=False)
    if op == "walk":
        return [[x.name for x in model.walk(order=o)] for o in ("bfs", "dfs_pre", "dfs_post")]
    if op == "grads":
        return len(model.get_gradients())


def context():
    import thinc.api
    import torch
    from thinc.model import Model
    from thinc.util import DATA_VALIDATION
    ops = thinc.api.get_current_ops()
    return [id(ops), ops.name, sorted(Model._context_operators.get()), [id(f) for f in Model._context_operators.get().values()],
            DATA_VALIDATION.get(), torch.is_grad_enabled(), torch.is_autocast_enabled("cpu")]


def run(case, run):
    import contextlib
    import thinc.api as t
    from thinc.util import data_validation
    instr.enable()
    m, seed = case["m"], case["seed"]
    if case["init"]:
        failed_init(case, run)
    model, twin = fresh(case), fresh(case)
    exact = "tscript" not in zoo.kinds_in(m["spec"])
    other = zoo.initialized(m, seed + 3).to_bytes()
    X = [zoo.batch(m, seed + 50 * b, [1, 2, 3][b]) for b in range(3)]
    xs = [zoo.snapshot(x) for x in X]
    pending = []

    def same(a, b, cls, what):
        d = zoo.close(a, b)
        check(d is None, cls, lambda: f"{what}: {d}")

    def snap():
        st = clean(zoo.full_state(model))
        for v in st.values():
            if isinstance(v, dict):
                for k in [k for k in v if k.startswith("b:")]:
                    v.pop(k)
        return st

    with contextlib.ExitStack() as stack:
        if case["ctx"] & 1:
            stack.enter_context(t.Model.define_operators({">>": t.chain, "@": t.add}))
        if case["ctx"] & 2:
            stack.enter_context(data_validation(False))
        ctx = context()
        for j, (op, b, faults, old) in enumerate(case["calls"]):
            own = model.to_bytes() if exact else None
            before = snap()
            if op == "dict" and not exact:
                op = "walk"
            if op == "resize" and pending:  # gradients of the layer that is replaced are gone
                pending.clear()
            for k, (how, at, exc) in enumerate(faults):
                what = f"call {j} {op} failing for the {k + 1}. time"
                C.seed_all(seed + j)
                replaced = model.layers[0] if op == "resize" else None
                # how long the call is, from the model on which nothing fails
                if op == "resize":  # it must not come through
                    how, at = "instr", at if how == "instr" else at / 9
                if how == "instr":
                    probe = twin.copy() if op == "resize" else twin
                    with instr.Counter() as c:
                        call(probe, m, op, X[b], other)
                    C.seed_all(seed + j)
                    inj = instr.FailAt(int(at * c.count) + 1, make_exc(exc))
                else:
                    inj = FailingOps(model, at, make_exc(exc))
                try:
                    with inj:
                        call(model, m, op, X[b], other)
                except BaseException as e:
                    if inj.fired is None:
                        raise
                    run.fault(how)
                else:
                    if inj.fired:
                        run.probe("absorbed")
                    elif op == "resize":  # it came through without a fault
                        model.layers[0] = replaced
                if inj.fired:
                    run.log.add(op, inj.fired)
                    run.measure.add(core.derive(op, *inj.fired))
                    run.nontrivial = True
                    what = f"{what} in {inj.fired[0]} ({exc})"
                d = zoo.exact(before, snap())
                check(d is None, "model-changed", lambda: f"{what}: {d}")
                if own is not None and not zoo_has_bn(m):
                    check(model.to_bytes() == own, "bytes-changed", what)
                now = context()
                check(now == ctx, "context-changed", lambda: f"{what}: {now} instead of {ctx}")
                for i, x in enumerate(X):
                    d = zoo.exact(zoo.snapshot(x), xs[i])
                    check(d is None, "input-changed", lambda: f"{what}: {d}")
                run.steps += 1
            # repeat it (or an older callback first), as if nothing had failed
            if old and pending:
                bp, bq, dY = pending.pop(0)
                C.seed_all(seed)
                a = bp(dY)
                C.seed_all(seed)
                c = bq(dY)
                if not C.ints_in(m):
                    same(c, a, "callback-differs", f"callback of an earlier batch after call {j}")
            C.seed_all(seed + j)
            want = call(twin, m, op, X[b], other)
            C.seed_all(seed + j)
            got = call(model, m, op, X[b], other)
            what = f"repeating call {j} {op}"
            if op == "train":
                same(want[0], got[0], "retry-differs", what)
                dY = zoo.grad_like(want[0], seed + j)
                pending.append((got[1], want[1], dY))
                if not old:
                    bp, bq, dY = pending.pop()
                    a, c = bp(dY), bq(dY)
                    if not C.ints_in(m):
                        same(c, a, "retry-differs", what + ": input gradient")
                    same(zoo.grads(twin), zoo.grads(model), "retry-differs", what + ": parameter gradients")
            elif op == "bytes":
                if exact and not zoo_has_bn(m):
                    check(want == got, "retry-differs", what)
            elif op == "dict":
                check(len(want["nodes"]) == len(got["nodes"]), "retry-differs", what)
                same(want["params"], got["params"], "retry-differs", what)
            elif op == "copy":
                same(zoo.params(want), zoo.params(got), "retry-differs", what)
                same(zoo.grads(want), zoo.grads(got), "retry-differs", what)
                C.seed_all(seed)
                p = want.predict(X[b])
                C.seed_all(seed)
                same(p, got.predict(X[b]), "retry-differs", what)
            elif op == "resize":
                check(shape(twin) == shape(model), "retry-differs", what)
                same(zoo.params(twin), zoo.params(model), "retry-differs", what)
            else:
                same(want, got, "retry-differs", what)
        now = context()
        check(now == ctx, "context-changed", lambda: f"at the end: {now} instead of {ctx}")


def zoo_has_bn(m):
    return '"bn"' in core.canon(m)


def shrink(case):
    for xs in core.shrink_list(case["init"]):
        yield {**case, "init": xs}
    for xs in core.shrink_list(case["calls"], 1):
        yield {**case, "calls": xs}
    for i, (op, b, f, o) in enumerate(case["calls"]):
        for g in core.shrink_list(f):
            yield {**case, "calls": case["calls"][:i] + [[op, b, g, o]] + case["calls"][i + 1:]}
    if case["trained"]:
        yield {**case, "trained": False}
    if case["ctx"]:
        yield {**case, "ctx": 0}
    yield from C.shrink_model(case)
