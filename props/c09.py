"""C09: checkpoints restore the whole model and training resumes exactly.

Part one drives a model through a seeded life (initialisation, training, edits of parameters, attributes, names,
references, resizing) and moves it through checkpoints into freshly built models, generation after generation.
Part two trains with checkpoints in two alternating files on simulated storage, kills the process at seeded
instructions and disk bytes, restarts with nothing but the files and compares with the run that was never killed."""
import os

import numpy

from sim import core, instr, zoo
from sim.core import check
from sim.simfs import SimFS

from . import common as C

META = {
    "runs": {"quick": 3000, "thorough": 40000},
    "rule": "seeded model with 0-6 edits per generation and 1-3 generations of save and load, or 3-7 training steps with "
            "1-4 kills; non-trivial when the model was edited before a save or a kill fired",
    "measure": "distinct (model kinds, edits, target state, channel) or (kill points, resumed steps) tuples",
    "real": C.REAL + ["Python file buffering"],
    "stub": ["raw file streams below the scratch directory", "process death is an exception at an instruction or disk byte after "
             "which every object of the process is dropped"],
    "assumptions": ["files that were closed before the process died survive", "the optimizer of the resumed training is stateless"],
}

EDITS = ["train", "train", "param", "attr", "attr", "attrmut", "custom", "name", "ref", "ref", "refnone", "unset", "rewrite", "torchw",
         "dropout", "grad", "cast"]


def gen(r, tier):
    seed = r.randrange(2 ** 30)
    if r.random() < 0.3:
        return gen_resume(r, seed)
    resize = []
    if r.random() < 0.08:
        m = {"tin": "F2", "nI": 3, "spec": {"k": "resizable", "nI": 3, "nO": 2}}
        resize = sorted(r.randint(2, 6) for _ in range(r.randint(1, 2)))
    else:
        m = zoo.gen(r, {"depth": r.choice([1, 2, 3]), "torch_rand": True, "premap": r.random() < 0.2})
    gens = []
    for _ in range(r.choice([1, 1, 2, 3])):
        gens.append({"edits": [[r.choice(EDITS), r.randrange(1000)] for _ in range(r.choice([0, 1, 2, 4, 6]))],
                     "target": r.choice(["fresh", "fresh", "init", "init", "used"]),
                     "via": r.choice(["bytes", "bytes", "dict", "disk"])})
    return {"kind": "trip", "m": m, "seed": seed, "init": r.random() < 0.85, "resize": resize, "gens": gens,
            "late_init": r.random() < 0.3}


def gen_resume(r, seed):
    m = zoo.gen(r, {"depth": r.choice([1, 2]), "torch_rand": r.random() < 0.5})
    while zoo.has_bn(m["spec"]) and "tscript" in zoo.kinds_in(m["spec"]):
        # batch statistics of two items amplify the rounding differences of the TorchScript JIT
        m = zoo.gen(r, {"depth": 1})
    return {"kind": "resume", "m": m, "seed": seed, "steps": r.randint(3, 7), "every": r.choice([1, 1, 2, 3]),
            "accumulate": r.choice([1, 1, 2]), "opt": C.gen_opt(r, stateless=True, sched=False),
            "kills": [gen_kill(r) for _ in range(r.randint(1, 4))], "target": r.choice(["fresh", "init"])}


def gen_kill(r):
    if r.random() < 0.5:
        return {"instr": int(10 ** r.uniform(1, 4.3))}
    return {"save": r.randint(1, 3), "frac": r.choice([0.0, 0.999, r.random(), r.random()]), "short": r.choice([None, 1, 60, 5000])}


def describe(case):
    d = {"model": C.describe_model(case["m"]), "kind": case["kind"]}
    if case["kind"] == "trip":
        d["gens"] = [f"{[e[0] for e in g['edits']]} -> {g['target']} by {g['via']}" for g in case["gens"]]
    else:
        d.update(steps=case["steps"], kills=case["kills"])
    return d


class Custom:
    def __init__(self, x):
        self.x = x


def setup():
    from thinc.model import deserialize_attr, serialize_attr

    @serialize_attr.register(Custom)
    def _(_, value, name, model):
        return f"custom {value.x}".encode()

    @deserialize_attr.register(Custom)
    def _(_, value, name, model):
        return Custom(int(value.decode().split()[1]))


def attr_value(r):
    return r.choice([
        lambda: r.randint(-2 ** 40, 2 ** 40), lambda: r.random() * 10 ** r.randint(-5, 20), lambda: r.choice([True, False, None]),
        lambda: "".join(r.choice("aé漢\0z ") for _ in range(r.randint(0, 40))), lambda: bytes(r.randrange(256) for _ in range(r.randint(0, 9))),
        lambda: [r.randint(0, 5) for _ in range(r.randint(0, 20))], lambda: {"a": [1.5, {"b": None}], "c": "d", "": r.random()},
        lambda: {r.randint(0, 99): "x", r.randint(100, 200): "y"},
        lambda: {"deep": {"deeper": [[r.random()], []]}},
        lambda: numpy.asarray([[r.random() for _ in range(3)] for _ in range(r.randint(0, 3))], dtype=r.choice(["f", "d"])),
        lambda: numpy.arange(r.randint(0, 5), dtype=r.choice(["i4", "u8", "i8"])),
        lambda: float("inf"), lambda: "", lambda: 0, lambda: [],
    ])()


def apply_edit(model, m, kind, x, seed, ready):
    """One event in the life of a model.  Returns whether the model can no longer predict."""
    nodes = list(model.walk())
    r = core.rng("edit", seed, x)
    node = nodes[x % len(nodes)]
    if kind == "train":
        if ready:
            C.train_step(model, m, seed + x, 2)
            if r.random() < 0.7:
                from thinc.api import SGD, Adam
                model.finish_update(r.choice([SGD, Adam])(0.1))
    elif kind in ("param", "rewrite"):
        names = [(n, p) for n in nodes for p in n.param_names if n.has_param(p)]
        if names:
            n, p = names[x % len(names)]
            a = n.get_param(p)
            new = zoo.npr(seed + x).uniform(-1, 1, a.shape).astype(a.dtype)
            if kind == "rewrite":
                a[...] = new
            else:
                n.set_param(p, new)
    elif kind == "attr":
        node.attrs[r.choice(["sim_a", "sim_b"])] = attr_value(r)
    elif kind == "attrmut":
        for k, v in list(node.attrs.items()):
            if not k.startswith("sim_"):
                continue
            if isinstance(v, list) and v:
                v.append(v[0])
            elif isinstance(v, numpy.ndarray) and v.size and v.dtype.kind == "f":
                node.attrs[k] = v + 1
    elif kind == "custom":
        node.attrs["sim_custom"] = Custom(x)
    elif kind == "name":
        node.name = r.choice(["renamed", "", node.name + ">>x", "漢"])
    elif kind == "ref":
        sub = list(node.walk())
        node.set_ref(r.choice(["sim_r", "sim_q"]), sub[r.randrange(len(sub))])
    elif kind == "refnone":
        node.set_ref(r.choice(["sim_r", "sim_q"]), None)
    elif kind == "unset":
        if r.random() < 0.3:
            names = [(n, p) for n in nodes for p in n.param_names if n.has_param(p)]
            if names:
                n, p = names[x % len(names)]
                n.set_param(p, None)
                return True
    elif kind == "cast":
        # the type and memory layout of a parameter are up to the layer
        if r.random() < 0.3:
            names = [(n, p) for n in nodes for p in n.param_names if n.has_param(p)]
            if names:
                n, p = names[x % len(names)]
                a = n.get_param(p)
                how = r.choice(["d", "f2", "i4", "u8", "?", "order", "strided"])
                if how == "order":
                    a = numpy.asfortranarray(a)
                elif how == "strided":
                    a = numpy.repeat(a, 2, axis=0)[::2]
                else:
                    a = (a * 3).astype(how)
                n.set_param(p, a)
                return True
    elif kind == "torchw":
        import torch
        for n in nodes:
            for s in n.shims:
                for p in s._model.parameters():
                    with torch.no_grad():
                        p.add_(0.25)
    elif kind == "dropout":
        from thinc.api import set_dropout_rate
        set_dropout_rate(model, r.choice([0.0, 0.1, 0.75]))
    elif kind == "grad":
        if ready:
            C.train_step(model, m, seed + x, 2)
    return False


def content(model):
    """Everything a checkpoint has to restore."""
    out = {}
    nodes = list(model.walk())
    where = {n.id: i for i, n in enumerate(nodes)}
    for i, n in enumerate(nodes):
        out[f"{i}:name"] = n.name
        out[f"{i}:dims"] = {k: n.maybe_get_dim(k) for k in n.dim_names}
        out[f"{i}:refs"] = {k: (where[n.get_ref(k).id] if n.has_ref(k) else None) for k in n.ref_names}
        for k, v in n.attrs.items():
            if isinstance(v, Custom):
                v = ("Custom", v.x)
            elif callable(v) or isinstance(v, (slice,)):
                continue
            elif isinstance(v, tuple):
                v = plain(list(v))
            out[f"{i}:attr:{k}"] = plain(v)
        for k in n.param_names:
            out[f"{i}:param:{k}"] = n.get_param(k).copy() if n.has_param(k) else None
        for j, s in enumerate(n.shims):
            out[f"{i}:shim{j}"] = {k: v for k, v in zoo.shim_state(s).items() if k[:2] in ("p:", "b:")}
    return out


def plain(v):
    if isinstance(v, dict):
        return sorted((repr(k), plain(x)) for k, x in v.items())
    if isinstance(v, numpy.ndarray):
        return ("array", v.shape, v.dtype.str, v.tobytes())
    if isinstance(v, (tuple, list)):
        return [plain(x) for x in v]
    if isinstance(v, float):
        return repr(v)
    return v if isinstance(v, (int, str, bytes, bool, type(None))) else type(v).__name__


def fresh(m, seed, how, resize, custom):
    from thinc.api import fix_random_seed
    from thinc.layers.resizable import resize_model
    if how == "fresh":
        fix_random_seed(seed % (2 ** 31))
        with zoo.backend(m.get("ops")):
            model = zoo.build(m["spec"])
    else:
        model = zoo.initialized(m, seed)
        if how == "used":
            C.train_step(model, m, seed + 5, 2)
    for n in resize:
        resize_model(model, n)
    if custom:  # the type of the value tells how to load it
        for node in model.walk():
            node.attrs["sim_custom"] = Custom(-1)
    return model


def trip(case, run):
    from thinc.layers.resizable import resize_model
    m, seed = case["m"], case["seed"]
    tscript = "tscript" in zoo.kinds_in(m["spec"])
    C.seed_all(seed)
    custom = any(e[0] == "custom" for g in case["gens"] for e in g["edits"])
    ready = case["init"]
    model = fresh(m, seed, "init" if ready else "fresh", case["resize"], custom)
    with SimFS(run, core.rng(seed, "fs")) as fs:
        for g, ge in enumerate(case["gens"]):
            where = f"generation {g}"
            if g and not ready and case["late_init"]:
                model.initialize(X=zoo.batch(m, seed + 1, 3))
                zoo.randomize(model, seed + 2)
                ready = True
            broken = False
            C.seed_all(seed + g)
            for kind, x in ge["edits"]:
                if not ready and kind in ("unset",):
                    continue
                broken |= apply_edit(model, m, kind, x, seed + 31 * g, ready and not broken and not case["resize"])
                run.nontrivial = True
            want = content(model)
            pred = predict(model, m, seed) if ready and not broken else None
            target = fresh(m, seed + 50 + g, "fresh" if not ready else ge["target"], case["resize"], custom)
            via = ge["via"]
            if via == "bytes":
                data = model.to_bytes()
                can = lambda t, strict: t.can_from_bytes(data, strict=strict)
                load = lambda t: t.from_bytes(data)
            elif via == "dict":
                dct = model.to_dict()
                data = model.to_bytes()
                can = lambda t, strict: t.can_from_dict(dct, strict=strict)
                load = lambda t: t.from_dict(dct)
            else:
                path = os.path.join(fs.root, f"g{g}")
                model.to_disk(path)
                data = open(path, "rb").read()
                can = lambda t, strict: t.can_from_disk(path, strict=strict)
                load = lambda t: t.from_disk(path)
            check(zoo.exact(want, content(model)) is None, "save-changed-model", lambda: f"{where}: {zoo.exact(want, content(model))}")
            # a fresh build has the dimensions its constructor got; a model that was initialised has all of them
            if True:
                before = zoo.full_state(target)
                check(can(target, False) is True, "own-checkpoint-incompatible",
                      lambda: f"{where}: a {ge['target']} model of the same structure reports the checkpoint as incompatible")
                d = zoo.exact(before, zoo.full_state(target))
                check(d is None, "check-changed-model", lambda: f"{where}: {d}")
            ret = load(target)
            check(ret is target, "load-result", where)
            diff = zoo.exact(want, {k: v for k, v in content(target).items() if k in want or ":refs" in k})
            check(diff is None, "not-restored", lambda: f"{where} ({ge['target']} target by {via}): {diff}")
            check(can(target, True) is True, "loaded-model-incompatible", lambda: f"{where}: after loading, the checkpoint is reported as incompatible")
            again = target.to_bytes()
            check(again == data or tscript, "bytes-differ", lambda: f"{where}: {len(data)} bytes were loaded, saving again gives {len(again)} other bytes")
            check(zoo.exact(want, content(model)) is None, "load-changed-source", where)
            if pred is not None:
                C.eq(pred, predict(target, m, seed), "prediction-differs", where, exact=not tscript)
                if via == "dict":  # what was handed over may be used again
                    C.train_step(target, m, seed + 3, 2)
                    from thinc.api import SGD
                    target.finish_update(SGD(0.3))
                    check(zoo.exact(want, content(model)) is None, "load-shares-state",
                          lambda: f"{where}: training the loaded model changes the saved one: {zoo.exact(want, content(model))}")
                    target = fresh(m, seed + 60 + g, "init", case["resize"], custom).from_bytes(data)
            run.measure.add(core.fp((tuple(sorted(zoo.kinds_in(m["spec"]))), tuple(sorted({e[0] for e in ge["edits"]})), ge["target"], via)))
            run.log.add(g, core.derive(data) if not tscript else 0)
            run.steps += 1
            model = target
            if broken:
                break


def predict(model, m, seed):
    return zoo.snapshot(model.predict(zoo.batch(m, seed + 9, 3)))


class Kill(instr.Counter):
    """The process dies when it is about to execute the n-th instruction: nothing reaches the disk after that."""

    def __init__(self, n, fs):
        super().__init__()
        self.next_stop = n
        self.fs = fs

    def stop(self, code, offset):
        self.next_stop = instr.NEVER
        self.fs.dead = True
        self.fs.fire("kill_at_instruction")
        raise core.SimCrash()


def one_step(model, m, seed, k, opt, acc):
    C.seed_all(seed + 1000 * k)
    for j in range(acc):
        C.train_step(model, m, seed + 77 * k + j, 2)
    model.finish_update(opt)


def resume(case, run):
    m, seed = case["m"], case["seed"]
    steps = case["steps"]
    exact = "tscript" not in zoo.kinds_in(m["spec"])  # the TorchScript JIT reoptimises after the first calls
    instr.enable()

    def start(s):
        model = fresh(m, s, case["target"] if s != seed else "init", [], False)
        model.attrs["sim_step"] = 0
        return model
    ref = start(seed)
    opt = C.build_opt(case["opt"])
    states = {0: zoo.params(ref)}
    for k in range(steps):
        one_step(ref, m, seed, k, opt, case["accumulate"])
        states[k + 1] = zoo.params(ref)
    want = zoo.params(ref)
    size = len(ref.to_bytes())
    trace = []
    with SimFS(run, core.rng(seed, "fs")) as fs:
        slots = [os.path.join(fs.root, "a"), os.path.join(fs.root, "b")]
        kills = list(case["kills"])
        durable = -1
        done = False
        for life in range(len(kills) + 1):
            kill = kills[life] if life < len(kills) else {}
            saves = 0
            if life == 0:
                model = start(seed)
            else:
                best = None
                for s in slots:
                    cand = start(seed + 300 + life)
                    if cand.can_from_disk(s, strict=False):
                        cand.from_disk(s)
                        if best is None or cand.attrs["sim_step"] > best.attrs["sim_step"]:
                            best = cand
                check(best is not None or durable < 0, "checkpoint-lost", f"life {life}: no checkpoint can be loaded, one of step {durable} was saved")
                model = best if best is not None else start(seed)
                k = model.attrs["sim_step"]
                check(k >= durable, "checkpoint-lost", lambda: f"life {life}: resumes at step {k}, the save of step {durable} had returned")
                C.eq(states[k], zoo.params(model), "checkpoint-wrong", f"life {life}: the checkpoint of step {k}", exact=exact)
                run.probe("resumed")
                trace.append(k)
            try:
                with Kill(kill.get("instr", instr.NEVER), fs):
                    opt = C.build_opt(case["opt"])
                    k = model.attrs["sim_step"]
                    while k < steps:
                        one_step(model, m, seed, k, opt, case["accumulate"])
                        k += 1
                        model.attrs["sim_step"] = k
                        run.steps += 1
                        if k % case["every"] == 0:
                            saves += 1
                            plan = {}
                            if kill.get("save") == saves:
                                plan["write"] = {"at": int(kill["frac"] * size), "kind": "crash"}
                                if kill["short"]:
                                    plan["short"] = kill["short"]
                            fs.arm(**plan)
                            model.to_disk(slots[(k // case["every"]) % 2])
                            fs.disarm()
                            durable = k
                    done = True
            except core.SimCrash:
                run.nontrivial = True
            if fs.dead:
                fs.restart()
                fs.disarm()
            if done:
                break
        check(done, "no-progress", f"training did not finish after {len(kills)} kills")
        C.eq(want, zoo.params(model), "resumed-training-differs", f"resumed at {trace}", exact=exact)
        C.eq(predict(ref, m, seed), predict(model, m, seed), "resumed-training-differs", "predictions", exact=exact)
    run.measure.add(core.fp((tuple(sorted(zoo.kinds_in(m["spec"]))), tuple(trace), steps, case["every"])))
    run.log.add("resume", trace)


def run(case, run):
    (trip if case["kind"] == "trip" else resume)(case, run)


def shrink(case):
    if case["kind"] == "trip":
        yield from C.shrink_key_list(case, "gens", 1)
        for i, g in enumerate(case["gens"]):
            for e in core.shrink_list(g["edits"]):
                yield {**case, "gens": case["gens"][:i] + [{**g, "edits": e}] + case["gens"][i + 1:]}
    else:
        yield from C.shrink_key_list(case, "kills", 0)
        if case["steps"] > 1:
            yield {**case, "steps": case["steps"] - 1}
    yield from C.shrink_model(case)
