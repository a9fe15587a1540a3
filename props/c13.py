"""C13: schedules and optimizer hyper-parameters follow the step clock.

A seeded history of updates, step advances, reported scores and schedule reads drives one real optimizer whose
hyper-parameters are schedules of all kinds.  Oracle: plain formulas and sequences give the value of every
hyper-parameter at every step; a second real optimizer that gets exactly these values as constants must arrive at the
same weights and state.  Probe schedules record at which step they were read."""
import itertools
import math

import numpy

from sim import core
from sim.core import check

META = {
    "runs": {"quick": 24000, "thorough": 300000},
    "rule": "seeded optimizer with 1-6 schedules and a history of 5-60 events; non-trivial when the clock advanced between updates",
    "measure": "distinct (optimizer, schedule kinds, event sequence) tuples",
    "real": ["thinc optimizers, schedules, numpy ops"],
    "stub": ["probe schedules record the step at which they are read"],
    "assumptions": ["at most one score is reported per step and it is followed by an update before the next one"],
}

NAMES = ["learn_rate", "L2", "grad_clip", "beta1", "beta2", "eps"]
ATTR = {"learn_rate": "learn_rate", "L2": "L2", "grad_clip": "grad_clip", "beta1": "b1", "beta2": "b2", "eps": "eps"}


def gen_sched(r, name, depth=0):
    """Schedule values are kept in the sensible range of the hyper-parameter."""
    hi = {"learn_rate": 0.5, "L2": 0.1, "grad_clip": 2.0, "beta1": 0.9, "beta2": 0.99, "eps": 1e-3}[name]
    v = lambda: round(hi * r.uniform(0.2, 1.0), 6)
    kinds = ["const", "list", "gen", "igen", "constant_then", "decaying", "compounding", "compounding_down", "slanted", "warmup", "cyclic", "probe",
             "plateau"]
    if name in ("beta1", "beta2", "eps"):
        kinds = ["const", "list", "gen", "igen", "decaying", "compounding_down", "probe", "constant_then"]
    if name == "grad_clip":  # a negative threshold makes no sense
        kinds.remove("slanted")
    if depth:
        kinds = [k for k in kinds if k not in ("list", "gen", "igen")]
    if depth > 1:
        kinds = [k for k in kinds if k not in ("plateau", "constant_then")]
    k = r.choice(kinds)
    d = {"k": k, "a": v(), "b": v(), "n": r.randint(1, 12), "m": r.randint(2, 30), "t": r.choice([0.0, 0.0, 3.0, 1.5])}
    if k in ("list", "gen"):
        d["xs"] = [v() for _ in range(r.randint(1, 12))]
        if name in ("L2", "grad_clip", "learn_rate") and r.random() < 0.3:
            d["xs"][r.randrange(len(d["xs"]))] = 0.0
        if r.random() < 0.2 and name == "learn_rate":
            d["xs"] = [r.randint(0, 1) for _ in d["xs"]]
    if k in ("constant_then", "plateau"):
        d["inner"] = gen_sched(r, name, depth + 1)
    return d


def gen(r, tier):
    case = {"kind": r.choice(["sgd", "adam", "radam"]), "avg": r.random() < 0.4, "wd": r.random() < 0.5, "seed": r.randrange(2 ** 30),
            "keys": r.randint(1, 3), "sched": {}}
    for n in NAMES:
        if n == "learn_rate" or r.random() < 0.45:
            if case["kind"] == "sgd" and n in ("beta1", "beta2", "eps"):
                continue
            case["sched"][n] = gen_sched(r, n)
    ev = []
    scored = stepped = updated = True
    for _ in range(r.choice([5, 12, 30, 60])):
        x = r.random()
        if x < 0.45:
            e = ["update", r.randrange(3), r.choice([1.0, 1.0, 0.5])]
            updated = True
        elif x < 0.75:
            e = ["step", r.choice([1, 1, 1, 1, 2, 3, 10]) if r.random() < 0.97 else r.choice([100, 1000, 4500])]
            stepped = True
        elif x < 0.85:
            if not (stepped and updated):
                continue
            e = ["score", round(r.choice([r.random(), 0.5, 0.5, 1.0]), 3)]
            stepped = updated = False
        elif x < 0.93:
            e = ["read", r.choice(list(case["sched"])), r.randint(1, 3)]
        elif x < 0.97:
            e = ["back", r.choice(list(case["sched"])), r.randint(1, 4)]
        else:
            e = ["togen", r.choice(list(case["sched"])), r.randint(0, 6), r.randint(1, 3)]
        ev.append(e)
    case["events"] = ev
    return case


def describe(case):
    return {"optimizer": case["kind"], "schedules": {k: kinds(v) for k, v in case["sched"].items()}, "events": case["events"][:25]}


def kinds(d):
    return d["k"] + (f"({kinds(d['inner'])})" if "inner" in d else "")


def build(d, name, log):
    import thinc.api as t
    from thinc.schedules import Schedule, plateau
    k = d["k"]
    if k == "const":
        return d["a"]
    if k == "list":
        return list(d["xs"])
    if k == "gen":
        return (x for x in d["xs"])
    if k == "igen":
        return (d["a"] / (1 + i) for i in itertools.count())
    if k == "constant_then":
        return t.constant_then(d["b"], d["n"], inner(d, name, log))
    if k == "decaying":
        return t.decaying(d["a"], 0.1, t=d["t"])
    if k == "compounding":
        return t.compounding(d["a"] / 10, d["a"], 1.2, t=d["t"])
    if k == "compounding_down":
        return t.compounding(d["a"], d["a"] / 10, 0.8, t=d["t"])
    if k == "slanted":
        return t.slanted_triangular(d["a"], d["m"] * 10, cut_frac=0.25, ratio=8, t=d["t"])
    if k == "warmup":
        return t.warmup_linear(d["a"], d["n"], d["n"] + d["m"])
    if k == "cyclic":
        return t.cyclic_triangular(d["a"] / 10, d["a"], d["n"])
    if k == "plateau":
        return plateau(1 + d["n"] % 4, 0.5, inner(d, name, log))
    if k == "probe":
        def probe(schedule, step, **kw):
            log.append((name, step, kw))
            return d["a"] * (1 + step) / (3 + step)
        return Schedule("probe", probe)
    raise core.HarnessError(k)


def inner(d, name, log):
    from thinc.api import constant
    s = build(d["inner"], name, log)
    return constant(s) if isinstance(s, float) else s


class Ref:
    """Value of a schedule at a step, by the book."""

    def __init__(self, d):
        self.d = d
        self.inner = Ref(d["inner"]) if "inner" in d else None
        self.best = self.seen = None
        self.patience = self.plateaus = 0

    def at(self, s, score):
        d, k = self.d, self.d["k"]
        if k == "const":
            return d["a"]
        if k in ("list", "gen"):
            return d["xs"][min(s, len(d["xs"]) - 1)]
        if k == "igen":
            return d["a"] / (1 + s)
        if k == "constant_then":
            # a plateau inside does not see scores before its time
            return d["b"] if s < d["n"] else self.inner.at(s, score)
        if k == "decaying":
            return d["a"] / (1 + 0.1 * (s + d["t"]))
        if k == "compounding":
            try:
                return min(d["a"], d["a"] / 10 * 1.2 ** (s + d["t"]))
            except OverflowError:
                return d["a"]
        if k == "compounding_down":
            return max(d["a"] / 10, d["a"] * 0.8 ** (s + d["t"]))
        if k == "slanted":
            cut, t = int(d["m"] * 10 * 0.25), s + d["t"] + 1
            p = t / cut if t < cut else 1 - (t - cut) / (cut * 3.0)
            return d["a"] * (1 + p * 7) / 8
        if k == "warmup":
            if s < d["n"]:
                return d["a"] * s / d["n"]
            return d["a"] * max(0.0, (d["m"] + d["n"] - s) / max(1.0, d["m"]))
        if k == "cyclic":
            i, n = s + 1, d["n"]
            x = abs(i / n - 2 * math.floor(1 + i / (2 * n)) + 1)
            return d["a"] / 10 + (d["a"] - d["a"] / 10) * max(0, 1 - x)
        if k == "probe":
            return d["a"] * (1 + s) / (3 + s)
        if score is not None and score[0] != self.seen:
            self.seen = score[0]
            if self.best is None or score[1] > self.best:
                self.best, self.patience = score[1], 0
            else:
                self.patience += 1
                if self.patience == 1 + d["n"] % 4:
                    self.plateaus += 1
                    self.patience = 0
        return 0.5 ** self.plateaus * self.inner.at(s, score)


def run(case, run):
    import thinc.api as t
    from thinc.optimizers import Optimizer
    seed = case["seed"]
    log = []
    kw = {n: build(d, n, log) for n, d in case["sched"].items()}
    extra = dict(use_averages=case["avg"], L2_is_weight_decay=case["wd"])
    make = {"sgd": t.SGD, "adam": t.Adam, "radam": t.RAdam}[case["kind"]]
    lr = kw.pop("learn_rate")
    opt = make(lr, **kw, **extra)
    ref = make(0.1, **extra)
    plain = {n: getattr(ref, ATTR[n]) for n in NAMES}
    refs = {n: Ref(d) for n, d in case["sched"].items()}
    rr = numpy.random.RandomState(seed % 2 ** 32)
    keys = [(i + 1, "W") for i in range(case["keys"])]
    W = {k: rr.uniform(-1, 1, (3, 2)).astype("f") for k in keys}
    V = {k: w.copy() for k, w in W.items()}
    step, score = 0, None
    read_at = -1  # last step at which generators were read
    base_step = 0
    trail = []

    def value(n):
        return refs[n].at(step, score)

    def near(a, b):
        return abs(float(a) - float(b)) <= 1e-6 * max(abs(float(a)), abs(float(b))) + 1e-12
    last_update = None
    for j, e in enumerate(case["events"]):
        where = lambda: f"event {j} {e} at step {step}"
        if e[0] == "update":
            key = keys[e[1] % len(keys)]
            g = numpy.random.RandomState((seed + j) % 2 ** 32).uniform(-1, 1, (3, 2)).astype("f")
            for n in case["sched"]:
                v = value(n)
                setattr(ref, ATTR[n], t.constant(float(v) if not isinstance(v, int) else v))
            log.clear()
            wa, ga = opt(key, W[key], g.copy(), lr_scale=e[2])
            for n, s, kws in log:
                check(s == step, "read-at-other-step", lambda: f"{where()}: {n} was read at step {s}")
                check(kws.get("key") == key and kws.get("last_score") == score, "schedule-arguments",
                      lambda: f"{where()}: {n} was read with {kws}, the key is {key}, the score {score}")
            wb, gb = ref(key, V[key], g.copy(), lr_scale=e[2])
            W[key], V[key] = wa, wb
            scale = 1e-5 * (1 + float(numpy.abs(wb).max()))
            d = float(numpy.abs(wa - wb).max())
            check(numpy.isfinite(wa).all() == numpy.isfinite(wb).all() and (not numpy.isfinite(wb).all() or d <= scale), "other-hyper-parameters",
                  lambda: f"{where()}: the update differs by {d:.3g} from one with {({n: value(n) for n in case['sched']})}")
            V[key] = wa.copy()  # rounding does not add up
            if case["avg"]:
                a, b = opt.averages[key], ref.averages[key]
                check(numpy.allclose(a, b, 1e-4, 1e-6, equal_nan=True), "averages-differ", where)
                ref.averages[key] = a.copy()
            if last_update is not None and step != last_update:
                run.nontrivial = True
            last_update = step
        elif e[0] == "step":
            for _ in range(e[1]):
                opt.step_schedules()
                step += 1
            check(opt.step == step, "clock", lambda: f"{where()}: the optimizer is at step {opt.step}")
            run.steps += e[1]
        elif e[0] == "score":
            opt.last_score = e[1]
            score = (step, e[1])
            check(opt.last_score == score, "score", lambda: f"{where()}: last_score is {opt.last_score}")
        elif e[0] == "read":
            sched = getattr(opt, ATTR[e[1]])
            want = value(e[1])
            for _ in range(e[2]):
                got = sched(step, key=keys[0], last_score=score)
                check(near(got, want), "wrong-value", lambda: f"{where()}: {kinds(case['sched'][e[1]])} gives {got}, its value is {want}")
        elif e[0] == "back":
            sched, d = getattr(opt, ATTR[e[1]]), case["sched"][e[1]]
            refused(lambda: sched(-1), where, "a negative step")
            if d["k"] in ("list", "gen", "igen"):
                want = value(e[1])
                sched(step)
                if step - e[2] >= 0:
                    refused(lambda: sched(step - e[2]), where, "an earlier step")
                    run.fault("step_back")
                check(near(sched(step), want), "wrong-value", lambda: f"{where()}: {sched(step)} after a refused read, its value is {want}")
            elif not has(d, "plateau"):
                s = max(0, step - e[2])
                got, want = sched(s), refs[e[1]].at(s, None)
                check(near(got, want), "wrong-value", lambda: f"{where()}: {kinds(d)} gives {got} at step {s}, its value is {want}")
                run.fault("step_back")
        elif e[0] == "togen":
            d = case["sched"][e[1]]
            if d["k"] in ("list", "gen", "igen") or has(d, "plateau"):
                continue
            sched = getattr(opt, ATTR[e[1]])
            gens = [sched.to_generator(e[2], e[3]), sched.to_generator()]
            for i in range(4):
                for gi, (a, b) in zip(gens, ((e[2], e[3]), (0, 1))):
                    got, want = next(gi), refs[e[1]].at(a + b * i, None)
                    check(near(got, want), "wrong-value", lambda: f"{where()}: to_generator({a}, {b}) gives {got} as value {i}, not {want}")
        trail.append(e[0])
        run.log.add(e, step)
    run.measure.add(core.fp((case["kind"], tuple(sorted((k, kinds(v)) for k, v in case["sched"].items())), tuple(trail))))


def has(d, k):
    return d["k"] == k or ("inner" in d and has(d["inner"], k))


def refused(fn, where, what):
    try:
        v = fn()
    except ValueError:
        return
    raise core.Violation("not-refused", f"{where()}: {what} gave {v}")


def shrink(case):
    for xs in core.shrink_list(case["events"], 1):
        yield {**case, "events": xs}
    for n in list(case["sched"]):
        if n != "learn_rate":
            yield {**case, "sched": {k: v for k, v in case["sched"].items() if k != n},
                   "events": [e for e in case["events"] if e[0] not in ("read", "back", "togen") or e[1] != n]}
        if "inner" in case["sched"][n]:
            yield {**case, "sched": {**case["sched"], n: case["sched"][n]["inner"]}}
    for k, v in (("avg", False), ("kind", "sgd"), ("keys", 1)):
        if case[k] != v:
            yield {**case, k: v}
