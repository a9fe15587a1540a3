"""C14: updates of one parameter never depend on those of another.

One real optimizer gets a seeded interleaving of updates of many parameters (or of whole models), with failing array
operations and parameters that appear late.  Oracle: for every parameter (or model) a second real optimizer that sees
nothing but this one and the step clock."""
import numpy

from sim import core, zoo
from sim.core import check

from . import common as C
from .c13 import build, gen_sched, has

META = {
    "runs": {"quick": 9000, "thorough": 200000},
    "rule": "2-8 parameters with seeded shapes and 5-80 updates, steps and failures, or 2-3 whole models on one optimizer; "
            "non-trivial when at least two parameters were updated",
    "measure": "distinct (optimizer, hyper-parameters, event sequence) tuples",
    "real": C.REAL,
    "stub": ["array operations that fail on demand"],
    "assumptions": ["no plateau schedule (its reported scores are shared by design)", "a parameter whose update failed is not judged afterwards"],
}

SHAPES = [(1,), (2,), (5,), (3, 2), (2, 3, 2), (1, 1), (20, 7)]


def gen(r, tier):
    kind = r.choice(["sgd", "adam", "adam", "radam", "radam"])
    case = {"kind": kind, "avg": r.random() < 0.6, "wd": r.random() < 0.5, "seed": r.randrange(2 ** 30), "sched": {}}
    for n in ["learn_rate", "L2", "grad_clip", "beta1", "beta2", "eps"]:
        if n == "learn_rate" or r.random() < 0.3:
            if kind == "sgd" and n in ("beta1", "beta2", "eps"):
                continue
            d = gen_sched(r, n)
            while has(d, "plateau"):
                d = gen_sched(r, n)
            case["sched"][n] = d
    if r.random() < 0.12:
        case["models"] = [zoo.gen(r, {"depth": 1, "lstm": False}) for _ in range(r.randint(2, 3))]
        case["events"] = [["train", r.randrange(3)] if r.random() < 0.75 else ["step", 1] for _ in range(r.choice([4, 8, 14]))]
        return case
    case["shapes"] = [r.choice(SHAPES) for _ in range(r.randint(2, 8))]
    case["ops"] = r.choice(["numpy", "numpy", "vanilla"])
    ev = []
    for _ in range(r.choice([5, 15, 40, 80])):
        x = r.random()
        if x < 0.75:
            ev.append(["update", r.randrange(8), r.choice([1.0, 1.0, 0.3]), r.choice(["n"] * 6 + ["zero", "zero", "big", "big", "same", "inf"])])
        elif x < 0.9:
            ev.append(["step", r.choice([1, 1, 2, 5]) if r.random() < 0.9 else r.choice([60, 200, 1000])])
        elif x < 0.905:
            ev.append(["burst", r.randrange(8), int(10 ** r.uniform(1, 2.9))])
        elif x < 0.93:
            ev.append(["empty", r.randrange(8)])
        elif x < 0.96:
            ev.append(["replace", r.randrange(8)])
        else:
            ev.append(["fail", r.randrange(8), r.choice(["clip_gradient", "adam", "alloc", "update_averages", "reshape_f", "reshape1f"])])
    case["events"] = ev
    return case


def describe(case):
    from .c13 import kinds
    return {"optimizer": case["kind"], "schedules": {k: kinds(v) for k, v in case["sched"].items()}, "shapes": case.get("shapes"),
            "models": [C.describe_model(m) for m in case.get("models", [])], "events": case["events"][:20]}


def make_opt(case, at=0):
    import thinc.api as t
    kw = {n: build(d, n, []) for n, d in case["sched"].items()}
    lr = kw.pop("learn_rate")
    opt = {"sgd": t.SGD, "adam": t.Adam, "radam": t.RAdam}[case["kind"]](lr, use_averages=case["avg"], L2_is_weight_decay=case["wd"], **kw)
    for _ in range(at):
        opt.step_schedules()
    return opt


def owned(opt):
    out = {}
    for n in ("mom1", "mom2", "averages"):
        for k, v in (getattr(opt, n) or {}).items():
            out[(n, k)] = v
    return out


def run(case, run):
    (run_models if "models" in case else run_params)(case, run)


def run_params(case, run):
    from thinc.api import NumpyOps
    from thinc.backends.ops import Ops
    seed = case["seed"]
    r = numpy.random.RandomState(seed % 2 ** 32)
    opt = make_opt(case)
    # keys that have the id or the name in common
    keys = [(1 + i // 2, "W" if i % 2 else "b") for i in range(len(case["shapes"]))]
    W = [r.uniform(-1, 1, s).astype("f") for s in case["shapes"]]
    V = [w.copy() for w in W]
    refs = [None] * len(keys)
    broken = set()
    step = 0
    seen = set()
    trail = []
    ops = NumpyOps() if case["ops"] == "numpy" else Ops(numpy)
    import thinc.optimizers as module
    real = module.get_array_ops
    module.get_array_ops = lambda a: ops
    try:
        for j, e in enumerate(case["events"]):
            where = lambda: f"event {j} {e} at step {step}"
            trail.append((e[0], e[1] % len(keys)))
            if e[0] == "step":
                for _ in range(e[1]):
                    opt.step_schedules()
                    for x in refs:
                        if x is not None:
                            x.step_schedules()
                    step += 1
                run.steps += e[1]
                continue
            i = e[1] % len(keys)
            key = keys[i]
            if i in broken:
                continue
            if refs[i] is None:
                refs[i] = make_opt(case, step)
            others = {("W", k): W[k] for k in range(len(W)) if k != i}
            others.update({k: v for k, v in owned(opt).items() if k[1] != key})
            before = {k: v.copy() for k, v in others.items()}
            g = numpy.random.RandomState((seed + j) % 2 ** 32).uniform(-1, 1, case["shapes"][i]).astype("f")
            if e[0] == "update":
                if e[3] == "zero":
                    g[...] = 0
                elif e[3] == "big":
                    g *= 1e4
                elif e[3] == "same":
                    g[...] = 0.5
                elif e[3] == "inf":  # the gradient overflowed
                    g.ravel()[:: 2] = numpy.inf
                    run.fault("gradient_overflow")
                g2 = g.copy()
                W[i], ga = opt(key, W[i], g, lr_scale=e[2])
                V[i], gb = refs[i](key, V[i], g2, lr_scale=e[2])
                seen.add(i)
                check(ga.shape == g.shape and W[i].shape == tuple(case["shapes"][i]), "shape", where)
                check(not numpy.asarray(ga).any(), "gradient-left", lambda: f"{where()}: the returned gradient is not zero: {ga.ravel()[:4]}")
                check(not g.any(), "gradient-left", lambda: f"{where()}: the gradient that was handed in is not zero: {g.ravel()[:4]}")
                check(not numpy.shares_memory(W[i], ga), "aliasing", where)
                C.eq(V[i], W[i], "depends-on-others", f"event {j}: parameter {key} after its update", exact=True)
            elif e[0] == "burst":  # this parameter gets many updates while the others rest
                rr = numpy.random.RandomState((seed + j) % 2 ** 32)
                for _ in range(e[2]):
                    g = rr.uniform(-1, 1, case["shapes"][i]).astype("f")
                    W[i], _x = opt(key, W[i], g.copy())
                    V[i], _x = refs[i](key, V[i], g)
                seen.add(i)
                run.steps += e[2]
                C.eq(V[i], W[i], "depends-on-others", f"event {j}: parameter {key} after {e[2]} updates", exact=True)
            elif e[0] == "empty":
                w = numpy.zeros((0, 3), "f")
                a, b = opt((99, "E"), w, numpy.zeros((0, 3), "f"))
                check(a.shape == (0, 3) and b.shape == (0, 3), "shape", where)
            elif e[0] == "replace":  # the same parameter in another array
                W[i] = W[i].copy()
                V[i] = V[i].copy()
            elif e[0] == "fail":
                name = e[2]

                def failing(*a, **k):
                    raise MemoryError("injected")
                setattr(ops, name, failing)
                try:
                    opt(key, W[i], g)
                except MemoryError:
                    broken.add(i)
                    run.fault("array_op_fails:" + name)
                else:
                    refs[i](key, V[i], g * 0 + numpy.random.RandomState((seed + j) % 2 ** 32).uniform(-1, 1, case["shapes"][i]).astype("f"))
                finally:
                    delattr(ops, name)
            now = owned(opt)
            for k, v in before.items():
                x = W[k[1]] if k[0] == "W" else now.get(k)
                check(x is not None and numpy.array_equal(v, x, equal_nan=True), "other-parameter-changed",
                      lambda: f"{where()}: updating {key} changed {k[0]} of {keys[k[1]] if k[0] == 'W' else k[1]}")
            run.log.add(e, [core.derive(w.tobytes()) for w in W])
    finally:
        module.get_array_ops = real
    for i, key in enumerate(keys):
        if refs[i] is None or i in broken:
            continue
        a, b = owned(opt), owned(refs[i])
        for n in ("mom1", "mom2", "averages"):
            check(((n, key) in a) == ((n, key) in b), "depends-on-others", f"{n} of {key} exists in one optimizer only")
            if (n, key) in a:
                C.eq(b[n, key], a[n, key], "depends-on-others", f"{n} of {key}", exact=True)
        check(opt.nr_update.get(key) == refs[i].nr_update.get(key), "depends-on-others", f"update count of {key}")
    arrays = [(f"W{k}", w) for k, w in enumerate(W)] + [(f"{k}", v) for k, v in owned(opt).items()]
    for x in range(len(arrays)):
        for y in range(x):
            check(not numpy.may_share_memory(arrays[x][1], arrays[y][1]), "aliasing", lambda: f"{arrays[x][0]} and {arrays[y][0]} share memory")
    run.nontrivial = len(seen) > 1
    run.measure.add(core.fp((case["kind"], str(case["sched"]), tuple(trail))))


def run_models(case, run):
    seed = case["seed"]
    C.seed_all(seed)
    models = [zoo.initialized(m, seed + i) for i, m in enumerate(case["models"])]
    alone = [zoo.initialized(m, seed + i) for i, m in enumerate(case["models"])]
    opt = make_opt(case)
    refs = [make_opt(case) for _ in models]
    for j, e in enumerate(case["events"]):
        if e[0] == "step":
            for o in [opt] + refs:
                o.step_schedules()
            continue
        i = e[1] % len(models)
        m = case["models"][i]
        for model, o in ((models[i], opt), (alone[i], refs[i])):
            C.seed_all(seed + j)
            C.train_step(model, m, seed + 7 * j, 2)
            model.finish_update(o)
        exact = "tscript" not in zoo.kinds_in(m["spec"])
        for x, (a, b) in enumerate(zip(models, alone)):
            C.eq(zoo.params(b), zoo.params(a), "depends-on-others", f"event {j}: model {x} after an update of model {i}",
                 exact=exact and "tscript" not in zoo.kinds_in(case["models"][x]["spec"]))
        check(not zoo.grads(models[i]), "gradient-left", f"event {j}")
        run.steps += 1
    if case["avg"]:
        for i, (a, b) in enumerate(zip(models, alone)):
            pa = [opt.averages.get((n.id, p)) for n in a.walk() for p in n.param_names if n.has_param(p)]
            pb = [refs[i].averages.get((n.id, p)) for n in b.walk() for p in n.param_names if n.has_param(p)]
            C.eq(pb, pa, "depends-on-others", f"averages of model {i}", exact=True)
    run.nontrivial = len({e[1] % len(models) for e in case["events"] if e[0] == "train"}) > 1
    run.measure.add(core.fp((case["kind"], str(case["sched"]), str(case["events"]))))
    run.log.add([core.derive(*(v.tobytes() for v in zoo.params(x).values())) if "tscript" not in zoo.kinds_in(m["spec"]) else 0
                 for x, m in zip(models, case["models"])])


def shrink(case):
    for xs in core.shrink_list(case["events"], 1):
        yield {**case, "events": xs}
    for i, e in enumerate(case["events"]):
        if e[0] == "burst":
            for n in (1, e[2] // 2, e[2] - 1):
                if 0 < n < e[2]:
                    yield {**case, "events": case["events"][:i] + [[*e[:2], n]] + case["events"][i + 1:]}
    if "shapes" in case:
        for xs in core.shrink_list(case["shapes"], 1):
            yield {**case, "shapes": xs}
        for i, s in enumerate(case["shapes"]):
            if tuple(s) != (1,):
                yield {**case, "shapes": case["shapes"][:i] + [[1]] + case["shapes"][i + 1:]}
    for n in list(case["sched"]):
        if n != "learn_rate":
            yield {**case, "sched": {k: v for k, v in case["sched"].items() if k != n}}
        elif case["sched"][n]["k"] != "const":
            yield {**case, "sched": {**case["sched"], n: {**case["sched"][n], "k": "const"}}}
    if case["avg"]:
        yield {**case, "avg": False}
