"""C06: models trained in different threads do not interfere.

Each simulated thread trains, evaluates, serialises and restores its own model with its own optimizer; the seeded
scheduler preempts them at instructions of the code under test.  Oracle: the same program run alone."""
import numpy

from sim import core, zoo
from sim.core import check

from . import common as C

META = {
    "runs": {"quick": 2500, "thorough": 30000},
    "rule": "2-4 threads, each with its own seeded model, data, optimizer and program (train, update, step, predict, "
            "save, restore, averages), seeded preemption; non-trivial when a preemption inside the code under test happened",
    "measure": "distinct sequences of (thread, function, instruction offset, next thread)",
    "real": C.REAL,
    "stub": ["thread scheduler", "locks of the code under test"],
    "assumptions": ["preemption happens at bytecode instructions of thinc; numpy, torch and C kernels run atomically"],
}

OPS = ["train"] * 5 + ["update"] * 4 + ["step", "predict", "save_restore", "averages", "minibatch", "bytes", "schedule",
                                        "optim", "loss", "layout", "config", "copy", "init"]
FOCUS = ["optim", "optim", "loss", "layout", "minibatch", "config", "schedule", "init", "init"]
LOSSES = ["cat", "cat_names", "seq", "l2", "cosine"]


def gen(r, tier):
    n = r.choice([2, 2, 3, 4])
    opts = {"dropout": False, "depth": r.choice([1, 2, 2, 3])}
    progs = []
    first = zoo.gen(r, opts)
    same = r.random() < 0.5  # the same architecture in every thread: same shapes, same names
    opt = C.gen_opt(r)
    if r.random() < 0.3:
        # One component under fire: short programs, frequent preemption.
        what = r.choice(FOCUS)
        for i in range(n):
            m = {"tin": "F2", "nI": 2, "spec": {"k": "linear", "nI": 2, "nO": 2}}
            o = C.gen_opt(r, r.choice([("radam",), ("adam", "radam", "sgd")]))
            progs.append({"m": m, "opt": o, "seed": r.randrange(2 ** 30), "ops": [what] * r.randint(2, 12)})
        return {"progs": progs, "sched": {"kind": "random", "gap": r.choice([3, 8, 20, 60]), "seed": r.randrange(2 ** 31)}}
    for i in range(n):
        m = first if same else (zoo.gen(r, opts) if i else first)
        ops = [r.choice(OPS) for _ in range(r.randint(3, 7))]
        if "train" not in ops:
            ops.insert(0, "train")
        progs.append({"m": m, "opt": opt if same and r.random() < 0.7 else C.gen_opt(r), "seed": r.randrange(2 ** 30), "ops": ops})
    return {"progs": progs, "sched": C.gen_sched(r, n)}


def describe(case):
    return {"threads": [{"model": C.describe_model(p["m"]), "ops": " ".join(p["ops"]), "optimizer": p["opt"]["kind"]}
                        for p in case["progs"]]}


def prepare(p):
    """Everything that draws from the global generators happens before the threads start."""
    model = zoo.initialized(p["m"], p["seed"])
    other = zoo.initialized(p["m"], p["seed"] + 1)
    opt = C.build_opt(p["opt"])
    return {"model": model, "other": other, "opt": opt}


def optim(opt, seed, state):
    """Three small parameters, updated by direct calls of the optimizer."""
    r = zoo.npr(seed)
    for k in range(3):
        w = state.setdefault(k, numpy.full((3,), 0.5 * k, dtype="f"))
        state[k], _ = opt((k + 1, "W"), w, r.uniform(-1, 1, (3,)).astype("f"))
    opt.step_schedules()
    return [state[k].copy() for k in range(3)] + memory(opt)


def memory(opt):
    """What the optimizer keeps for the parameters, in the order in which they were first updated."""
    return [x.copy() for d in (opt.averages, opt.mom1, opt.mom2) if d for x in d.values()]


def schedules(seed):
    """Values of schedules of every kind at seeded steps."""
    import thinc.api as t
    from thinc.schedules import plateau
    r = zoo.npr(seed)
    out = []
    for _ in range(int(r.randint(1, 4))):
        a, b = r.uniform(0.1, 1, 2)
        s = [lambda: t.compounding(a, a * 5, 1.3), lambda: t.compounding(a, a / 5, 0.7), lambda: t.warmup_linear(a, 3, 9),
             lambda: t.decaying(a, b), lambda: t.cyclic_triangular(a, a + b, 3), lambda: t.slanted_triangular(a, 40),
             lambda: t.constant_then(a, 3, t.constant(b)), lambda: plateau(1, 0.5, t.compounding(a, a * 5, 1.3))][int(r.randint(8))]()
        gen = s.to_generator(0, last_score=(0, 0.5))
        out += [float(next(gen)) for _ in range(3)]
        step = int(r.randint(0, 12))
        out += [float(s(k, key=(1, "W"), last_score=(k, 0.5))) for k in range(step, step + 3)]
    return out


def loss(seed):
    import thinc.api as t
    r = zoo.npr(seed)
    kind = LOSSES[int(r.randint(len(LOSSES)))]
    n = int(r.randint(1, 5))
    guess = r.uniform(0.1, 1, (n, 3)).astype("f")
    guess /= guess.sum(axis=1, keepdims=True)
    other = r.uniform(0.1, 1, (n, 3)).astype("f")
    names = [["a", "b", "c"], ["x", "y", "z"], ["c", "b", "a"]][int(r.randint(3))]
    labels = [names[int(i)] for i in r.randint(0, 3, n)]
    smooth = [0.0, 0.1, 0.3][int(r.randint(3))]
    if kind == "cat":
        return t.CategoricalCrossentropy(label_smoothing=smooth)(guess, r.randint(0, 3, n).astype("i"))
    if kind == "cat_names":
        return t.CategoricalCrossentropy(names=names, label_smoothing=smooth)(guess, labels)
    if kind == "seq":
        return t.SequenceCategoricalCrossentropy(names=names)([guess, guess[:1]], [labels, labels[:1]])
    if kind == "l2":
        return t.L2Distance(normalize=bool(r.randint(2)))(guess, other)
    return t.CosineDistance()(guess, other)


def layout(seed):
    import thinc.api as t
    r = zoo.npr(seed)
    ops = t.get_ops("numpy")
    seqs = [r.uniform(-1, 1, (int(k), 2)).astype("f") for k in r.randint(1, 4, int(r.randint(1, 4)))]
    pad = ops.list2padded(seqs)
    flat = ops.flatten(seqs, pad=1)
    col = ops.seq2col(numpy.concatenate(seqs), 1)
    best, which = ops.maxout(r.uniform(-1, 1, (3, 2, 2)).astype("f"))
    return [zoo.snapshot(pad), ops.padded2list(pad), flat, ops.unflatten(flat, ops.asarray1i([len(s) for s in seqs]), pad=1),
            col, best, which, ops.pad(seqs), ops.softmax(flat), ops.backprop_seq2col(col, 1)]


def initialise(seed):
    """Layers whose initial values are not random, initialised and trained while others do the same."""
    import thinc.api as t
    from thinc.initializers import zero_init
    r = zoo.npr(seed)
    nI = int(r.choice([2, 2, 3]))
    X = r.uniform(-1, 1, (3, nI)).astype("f")
    m = [lambda: t.chain(t.Linear(nI, nI, init_W=zero_init), t.LayerNorm(nI)), lambda: t.LayerNorm(nI),
         lambda: t.Softmax(nI, nI, init_W=zero_init), lambda: t.Linear(nI, nI, init_W=zero_init)][int(r.randint(4))]()
    m.initialize(X=X)
    out = [zoo.snapshot(zoo.params(m))]
    for _ in range(2):
        Y, bp = m.begin_update(X)
        bp(r.uniform(-1, 1, Y.shape).astype("f"))
        m.finish_update(t.SGD(0.3))
        out.append(zoo.snapshot(zoo.params(m)))
    return out


def config(seed):
    import thinc.api as t
    r = zoo.npr(seed)
    rate, n = round(float(r.uniform(0.01, 0.9)), 3), int(r.randint(1, 9))
    c = t.Config().from_str(f"[a]\nrate = {rate}\n[m]\n@layers = \"Linear.v1\"\nnO = {n}\nnI = ${{b.width}}\n[b]\nwidth = {n + 1}\n"
                            f"[o]\n@optimizers = \"SGD.v1\"\nlearn_rate = {rate}\n", overrides={"b.width": n + 2})
    out = t.registry.resolve(c)
    return [c.to_str(), out["m"].get_dim("nO"), out["m"].get_dim("nI"), float(out["o"].learn_rate(0)), out["a"]["rate"]]


def program(p, o, log=None):
    import thinc.api
    m, seed = p["m"], p["seed"]
    out = []
    model, opt = o["model"], o["opt"]
    for j, op in enumerate(p["ops"]):
        if op == "train":
            Y, dX = C.train_step(model, m, seed + 10 * j)
            out.append(zoo.snapshot(Y))
            if not C.ints_in(m):
                out.append(zoo.snapshot(dX))
        elif op == "update":
            model.finish_update(opt)
        elif op == "step":
            opt.step_schedules()
        elif op == "predict":
            out.append(zoo.snapshot(model.predict(zoo.batch(m, seed + 10 * j))))
        elif op == "bytes":
            model.to_bytes()
        elif op == "save_restore":
            other = o["other"].from_bytes(model.to_bytes())
            out.append(zoo.snapshot(other.predict(zoo.batch(m, seed + 10 * j))))
            out.append(zoo.snapshot(zoo.params(other)))
        elif op == "averages":
            if opt.averages:
                with model.use_params(opt.averages):
                    out.append(zoo.snapshot(model.predict(zoo.batch(m, seed + 10 * j))))
                    out.append(zoo.snapshot(zoo.params(model)))
        elif op == "minibatch":
            xs = list(range(seed % 17))
            out.append([list(b) for b in thinc.api.get_current_ops().minibatch(3, xs)])
        elif op == "optim":
            out.append(optim(opt, seed + j, o.setdefault("state", {})))
        elif op == "loss":
            out.append(loss(seed + j))
        elif op == "layout":
            out.append(layout(seed + j))
        elif op == "config":
            out.append(config(seed + j))
        elif op == "copy":
            model.copy()
        elif op == "init":
            out += initialise(seed + j)
        elif op == "schedule":
            out.append(float(opt.learn_rate(opt.step)))
            out += schedules(seed + j)
    out.append(zoo.snapshot(zoo.params(model)))
    out.append(zoo.snapshot(zoo.grads(model, zero_is_none=True)))
    out.append(memory(opt))
    return out


def run(case, run):
    progs = case["progs"]
    alone = [program(p, prepare(p)) for p in progs]
    objs = [prepare(p) for p in progs]
    s = C.run_threads([(lambda p=p, o=o: program(p, o)) for p, o in zip(progs, objs)], case["sched"], run)
    C.raise_thread_errors(s)
    for i, t in enumerate(s.threads):
        got, exp = t.result, alone[i]
        check(len(got) == len(exp), "results-differ", f"thread {i}: number of results")
        for j, (a, b) in enumerate(zip(got, exp)):
            d = zoo.close(a, b)
            check(d is None, "results-differ", lambda: f"thread {i}, result {j}: {d}")
    run.nontrivial = run.probes.get("preemptions", 0) > 0


explicit = C.explicit_mode


def shrink(case):
    for i in range(len(case["progs"])):
        if len(case["progs"]) > 2 and case["sched"]["kind"] != "explicit":
            yield {**case, "progs": case["progs"][:i] + case["progs"][i + 1:]}
    for i, p in enumerate(case["progs"]):
        for ops in core.shrink_list(p["ops"]):
            yield {**case, "progs": case["progs"][:i] + [{**p, "ops": ops}] + case["progs"][i + 1:]}
    yield from C.shrink_sched(case)
    for i, p in enumerate(case["progs"]):
        for q in C.shrink_model(p):
            yield {**case, "progs": case["progs"][:i] + [q] + case["progs"][i + 1:]}
