"""Shared by the properties: optimizers, training steps, read-only operations, schedules for simulated threads."""
import numpy

from sim import core, zoo
from sim.core import check

REAL = ["thinc (Python layers, model, optimizer, schedules)", "thinc C extensions (numpy_ops, sparselinear, premap_ids)",
        "numpy", "BLIS gemm", "torch CPU modules", "srsly/msgpack"]


def seed_all(seed):
    """The sources of randomness that the code under test draws from."""
    import random
    import torch
    random.seed(seed)
    numpy.random.seed(seed % (2 ** 32))
    torch.manual_seed(seed)


def rng_state():
    import random
    import torch
    a = numpy.random.get_state()
    return [("numpy", [a[0], a[1].tolist(), a[2:]]), ("python", random.getstate()), ("torch", torch.get_rng_state().numpy().tobytes())]


# ------------------------------------------------------------------ optimizers

def gen_opt(r, kinds=("sgd", "adam", "radam"), stateless=False, sched=True):
    kind = "sgd" if stateless else r.choice(kinds)
    o = {"kind": kind, "lr": r.choice([0.5, 0.1, 0.03]), "L2": r.choice([0.0, 0.0, 0.01]), "wd": r.random() < 0.5,
         "clip": r.choice([0.0, 1.0, 0.3]), "avg": (not stateless) and r.random() < 0.5}
    if sched and r.random() < 0.5:
        o["sched"] = r.choice(["list", "warmup", "decay", "compounding", "growing", "cyclic", "gen"])
    if kind != "sgd" and r.random() < 0.5:
        o["b1"], o["b2"] = r.choice([0.9, 0.5]), r.choice([0.999, 0.99, 0.9, 0.5])
    return o


def build_opt(o):
    import thinc.api as t
    lr = o["lr"]
    s = o.get("sched")
    if s == "list":
        lr = [o["lr"] * (1 - 0.1 * i) for i in range(5)]
    elif s == "gen":
        lr = (o["lr"] / (1 + i) for i in range(100))
    elif s == "warmup":
        lr = t.warmup_linear(o["lr"], 3, 20)
    elif s == "decay":
        lr = t.decaying(o["lr"], 0.1)
    elif s == "compounding":
        lr = t.compounding(o["lr"], o["lr"] / 10, 0.9)
    elif s == "growing":
        lr = t.compounding(o["lr"] / 10, o["lr"], 1.5)
    elif s == "cyclic":
        lr = t.cyclic_triangular(o["lr"] / 10, o["lr"], 4)
    kw = dict(L2=o["L2"], L2_is_weight_decay=o["wd"], grad_clip=o["clip"], use_averages=o["avg"])
    if o["kind"] == "sgd":
        return t.SGD(lr, **kw)
    if "eps" in o:
        kw["eps"] = o["eps"]
    if "b1" in o:
        kw.update(beta1=o["b1"], beta2=o["b2"])
    if o["kind"] == "adam":
        return t.Adam(lr, **kw)
    return t.RAdam(lr, **kw)


def train_step(model, m, seed, size=None):
    """Forward, backward on a seeded batch; returns (Y, dX)."""
    X = zoo.batch(m, seed, size)
    Y, bp = model.begin_update(X)
    dX = bp(zoo.grad_like(Y, seed + 1))
    return Y, dX


def ints_in(m):
    return m["tin"] in (zoo.I1, zoo.I2, "LI1", "LI2", zoo.SS, zoo.SP)


def eq(a, b, cls, what, exact=False):
    d = zoo.exact(a, b) if exact else zoo.close(a, b)
    check(d is None, cls, lambda: f"{what}: {d}")


# ------------------------------------------------------------------ simulated caller threads

def gen_sched(r, threads):
    if r.random() < 0.75:
        return {"kind": "random", "gap": r.choice([3, 8, 20, 60, 200, 600]), "seed": r.randrange(2 ** 31)}
    return {"kind": "pct", "points": [[r.randrange(threads), int(10 ** r.uniform(0.5, 4))] for _ in range(r.randint(1, 8))],
            "seed": r.randrange(2 ** 31)}


def run_threads(fns, mode, run, names=None):
    """Run callables as simulated threads under a schedule; returns the SimThreads."""
    from sim import instr, sched
    instr.enable()
    s = sched.Sched(run, mode, core.rng("sched", mode.get("seed", 0)))
    for i, fn in enumerate(fns):
        s.spawn(fn, names[i] if names else None)
    s.run()
    return s


def raise_thread_errors(s):
    from sim.sched import Deadlock
    excs = [(t.idx, t.exc) for t in s.threads if t.exc is not None]
    for _, e in excs:
        if isinstance(e, core.Violation):
            raise e
    for _, e in excs:
        if not isinstance(e, Deadlock):
            raise e
    for i, e in excs:
        raise core.Violation("deadlock", f"thread {i} can never continue")


def explicit_mode(case, explicit):
    return {**case, "sched": explicit}


def shrink_sched(case):
    m = case.get("sched")
    if not m:
        return
    if m["kind"] == "explicit":
        for s in core.shrink_list(m["switches"]):
            yield {**case, "sched": {**m, "switches": s}}
        if m.get("picks"):
            for s in core.shrink_list(m["picks"]):
                yield {**case, "sched": {**m, "picks": s}}


def shrink_model(case, key="m"):
    for m in zoo.shrink_spec(case[key])[:60]:
        if zoo.buildable(m):
            yield {**case, key: m}


def shrink_key_list(case, key, min_len=0):
    for xs in core.shrink_list(case[key], min_len):
        yield {**case, key: xs}


def describe_model(m):
    def s(x):
        c = x.get("c")
        return x["k"] + ("(" + ", ".join(s(y) for y in c) + ")" if c else "")
    return f"{m['tin']}[{m['nI']}] {s(m['spec'])}" + (f" on {m['ops']} ops" if m.get("ops") else "")
