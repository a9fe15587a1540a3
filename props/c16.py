"""C16: a copied model and its original evolve independently.

A seeded history edits and trains a real model, copies it (and copies of copies), and goes on with operations on any of
them, interleaved by the scheduler (at operations, or at instructions in simulated threads).  Oracle: every member of
the family has a shadow that was built separately and went through the same operations without ever being copied."""
import copy

import numpy

from sim import core, zoo
from sim.core import check

from . import common as C
from .c09 import content

META = {
    "runs": {"quick": 1500, "thorough": 60000},
    "rule": "seeded model, 0-5 operations, then 1-3 copies and 4-20 operations spread over the family; non-trivial when "
            "both a copy and its original were changed afterwards",
    "measure": "distinct (model kinds, operation sequence) tuples or preemption sequences",
    "real": C.REAL,
    "stub": ["thread scheduler in the threaded runs"],
    "assumptions": ["threaded runs use models without dropout (the global generators are shared by design)"],
}

OPS = ["train", "train", "train", "update", "update", "adam", "param", "inplace", "setgrad", "attr", "attrmut", "ref", "refnone",
       "name", "load", "torchw", "predict", "use_params", "layer", "droprate", "fwd", "bwd", "dim", "unset", "clear"]


def gen(r, tier):
    seed = r.randrange(2 ** 30)
    if r.random() < 0.004:
        return {"kind": "premap", "seed": seed}
    threads = r.random() < 0.25
    m = zoo.gen(r, {"depth": r.choice([1, 2, 3]), "dropout": not threads, "torch_rand": not threads and r.random() < 0.3})
    ops = OPS
    if not threads and r.random() < 0.12:
        m = torch_model(r)
        ops = OPS + ["cfg", "overflow", "train", "update"]
    pick = lambda k: [[r.choice(ops), r.randrange(1000)] for _ in range(k)]
    case = {"m": m, "seed": seed, "pre": pick(r.choice([0, 1, 3, 5]))}
    if threads:
        n = r.randint(2, 3)
        safe = [o for o in OPS if o not in ("droprate",)]
        case["pre"] = [e for e in case["pre"] if e[0] != "droprate"]
        case.update(kind="threads", ops=[[[r.choice(safe), r.randrange(1000)] for _ in range(r.randint(1, 4))] for _ in range(n)],
                    sched=C.gen_sched(r, n))
    else:
        ev = [["copy", 0, 0]]
        for _ in range(r.choice([4, 8, 14, 20])):
            ev.append(["copy" if r.random() < 0.06 else r.choice(ops), r.randrange(4), r.randrange(1000)])
        case.update(kind="ops", events=ev)
    return case


def torch_model(r):
    """Nodes that share a wrapped module, and modules with a loss scaler."""
    n = r.choice([1, 2, 3])
    x = r.random()
    first = {"k": "torch", "arch": r.choice(["linear", "mlp", "tied"]), "nI": n, "nO": n, "v": r.choice([2, 3])}
    if x < 0.6:
        first["mp"] = {"enabled": r.random() < 0.85, "init": 2.0 ** r.choice([0, 4, 16]), "backoff": 0.5, "growth": 2.0,
                       "interval": r.choice([1, 2, 3])}
    kids = [first]
    if x > 0.4:
        first["i"] = 1
        kids += [{"k": r.choice(["relu", "linear"]), "nI": n, "nO": n}] if r.random() < 0.5 and "mp" not in first else []
        kids.append({"k": "tshare", "i": 1, "nI": n, "nO": n})
    elif r.random() < 0.4:
        kids.append({**first, "v": 3})
    return {"spec": {"k": "chain", "c": kids}, "tin": "F2", "nI": n}


def describe(case):
    if case["kind"] == "premap":
        return {"kind": "premap"}
    return {"model": C.describe_model(case["m"]), "kind": case["kind"], "before": [o for o, _ in case["pre"]],
            "events": [f"{e[0]}@{e[1]}" for e in case.get("events", [])] or case.get("ops")}


def known(case, v):
    if case["kind"] == "premap" and v.cls == "copy-fails":
        return "premap-copy"


LOADS = {}


class Member:
    """A model with its pending backward callbacks."""

    def __init__(self, model, opt=None):
        self.model, self.pending, self.opt, self.dead, self.history = model, [], opt, False, []


def do(mb, m, seed, op, x, opt):
    """One operation; a pure function of the member's state and (seed, op, x)."""
    import thinc.api as t
    model = mb.model
    nodes = list(model.walk())
    node = nodes[x % len(nodes)]
    r = numpy.random.RandomState((seed + x) % 2 ** 32)
    ps = [(n, p) for n in nodes for p in n.param_names if n.has_param(p)]
    if op in ("train", "fwd", "predict") and mb.dead:
        return None
    if op == "train":
        Y, dX = C.train_step(model, m, seed + x, 2)
        return zoo.snapshot(Y if C.ints_in(m) else [Y, dX])
    if op == "fwd":
        X = zoo.batch(m, seed + x, 2)
        Y, bp = model.begin_update(X)
        mb.pending.append((bp, zoo.grad_like(Y, seed + x + 1)))
        return zoo.snapshot(Y)
    if op == "bwd":
        if mb.pending:
            bp, dY = mb.pending.pop(x % len(mb.pending))
            dX = bp(dY)
            return None if C.ints_in(m) else zoo.snapshot(dX)
    elif op == "predict":
        return zoo.snapshot(model.predict(zoo.batch(m, seed + x, 3)))
    elif op == "update":
        model.finish_update(t.SGD(0.1))
    elif op == "adam":
        model.finish_update(opt)
    elif op in ("param", "inplace", "setgrad"):
        if ps:
            n, p = ps[x % len(ps)]
            v = r.uniform(-0.7, 0.7, n.get_param(p).shape).astype("f")
            if op == "param":
                n.set_param(p, v)
            elif op == "inplace":
                n.get_param(p)[...] = v
            elif x % 2:
                n.set_grad(p, v)
            else:
                n.inc_grad(p, v)
    elif op == "attr":
        node.attrs["sim_l"] = [x, [x]]
        node.attrs["sim_d"] = {"k": {"x": x}}
        node.attrs["sim_a"] = r.uniform(-1, 1, 3)
    elif op == "attrmut":
        for n in nodes:
            if "sim_l" in n.attrs:
                n.attrs["sim_l"][1].append(x)
                n.attrs["sim_d"]["k"]["y"] = x
                n.attrs["sim_a"][0] += 1
    elif op == "ref":
        sub = list(node.walk())
        node.set_ref(["sim_r", "sim_q"][x % 2], sub[x // 2 % len(sub)])
    elif op == "refnone":
        node.set_ref("sim_r", None)
    elif op == "name":
        node.name = f"name{x}"
    elif op == "load":
        if (seed, x) not in LOADS:  # building draws from the global generators, so not in a simulated thread
            other = zoo.initialized(m, seed + x)
            LOADS[seed, x] = len(list(other.walk())), other.to_bytes()
        size, data = LOADS[seed, x]
        if size == len(nodes) and not mb.dead:
            model.from_bytes(data)
            if any(n.shims for n in nodes):
                mb.pending = []  # torch refuses a backward pass after the weights were written
    elif op == "torchw":
        import torch
        for n in nodes:
            for s in n.shims:
                for p in s._model.parameters():
                    with torch.no_grad():
                        p.data.mul_(0.5)
                        if p.grad is not None and x % 2:
                            p.grad.add_(1.0)
    elif op == "use_params":
        if ps:
            n, p = ps[x % len(ps)]
            with model.use_params({(n.id, p): n.get_param(p) * 0.5}):
                if not mb.dead:
                    return zoo.snapshot(model.predict(zoo.batch(m, seed + x, 2)))
    elif op == "layer":
        if x % 4 == 0:
            from thinc.api import noop
            node.layers.append(noop())
            mb.dead = True
    elif op == "droprate":
        t.set_dropout_rate(model, (x % 10) / 20)
    elif op == "dim":
        for n in nodes:
            if not n.param_names and "nI" in n.dim_names and not n.shims and n.has_dim("nI") is None:
                n.set_dim("nI", 1 + x % 5)
                break
    elif op == "unset":
        ps = [(n, p) for n, p in ps if not n.has_grad(p)]
        if ps and x % 5 == 0:
            n, p = ps[x % len(ps)]
            n.set_param(p, None)
            mb.dead, mb.pending = True, []
    elif op == "cfg":
        for n in nodes:
            for s in n.shims:
                s.cfg.setdefault("sim", []).append(x)
    elif op == "overflow":
        if "mp" in core.canon(m) and not mb.dead:
            X = zoo.batch(m, seed + x, 2)
            Y, bp = model.begin_update(X)
            with numpy.errstate(all="ignore"):
                bp(zoo.grad_like(Y, seed + x + 1) * numpy.float32(1e38))
    elif op == "clear":
        for n in nodes:
            for p in n.param_names:
                if n.has_grad(p):
                    n.set_grad(p, n.get_grad(p) * 0)
    return None


def state(model):
    out = content(model)
    for k, v in zoo.grads(model).items():
        out["grad:" + k] = v
    for i, n in enumerate(model.walk()):
        out[f"{i}:layers"] = len(n.layers)
        out[f"{i}:cfg"] = [repr(s.cfg) for s in n.shims]
        for j, s in enumerate(n.shims):
            sc = getattr(s, "_grad_scaler", None)
            if sc is not None:
                import torch
                sc = copy.deepcopy(sc)
                for q in range(3):  # what it multiplies by now and after further steps
                    out[f"{i}:scale{j}:{q}"] = float(sc.scale(torch.ones(1))[0])
                    sc.update()
    return out


def build(m, seed, pre, avg_opt):
    mb = Member(zoo.initialized(m, seed))
    for j, (op, x) in enumerate(pre):
        C.seed_all(seed + j)
        do(mb, m, seed + 1000 * j, op, x, avg_opt)
    return mb


def run(case, run):
    import thinc.api as t
    if case["kind"] == "premap":
        model = t.premap_ids({1: 2, 3: 4}, default=0)
        run.nontrivial = True
        run.measure.add("premap")
        try:
            c = model.copy()
        except Exception as e:
            raise core.Violation("copy-fails", f"copying premap_ids raised {type(e).__name__}: {e}")
        X = numpy.asarray([1, 3, 5], dtype="uint64")
        C.eq(model.predict(X), c.predict(X), "copy-differs", "premap_ids", exact=True)
        return
    m, seed = case["m"], case["seed"]
    LOADS.clear()
    zoo.amp_on_cpu()
    exact = "tscript" not in zoo.kinds_in(m["spec"])

    def same(a, b, cls, what):
        # two separately allocated models may round differently (alignment), which an optimizer can amplify
        d = zoo.diff(a, b, 1e-3, 1e-4)
        check(d is None, cls, lambda: f"{what}: {d}")
    shared = t.Adam(0.05, eps=0.05)  # one optimizer for the whole family

    def shadow_of(pre):
        opt = t.Adam(0.05, eps=0.05)
        mb = build(m, seed, pre, opt)
        mb.opt = opt
        return mb
    members = [build(m, seed, case["pre"], shared)]
    ids = {n.id for n in members[0].model.walk()}
    shadows = [shadow_of(case["pre"])]
    shids = {s.id for n in members[0].model.walk() for s in n.shims}

    def copy_of(i):
        before = state(members[i].model)
        with zoo.backend(m.get("ops")):  # a copy is made on the current backend
            c = Member(members[i].model.copy())
        c.dead = members[i].dead
        same(before, state(members[i].model), "copy-changed-original", f"copying member {i}")
        same(state(members[i].model), state(c.model), "copy-differs", f"copy of member {i}")
        if exact and not c.dead:
            check(c.model.to_bytes() == members[i].model.to_bytes(), "copy-differs", "the copy serialises to other bytes")
        sharing = lambda model: [[n.shims.index(s) if s in n.shims else None for n in model.walk()] for o in model.walk() for s in o.shims]
        check(sharing(c.model) == sharing(members[i].model), "copy-differs", f"copy of member {i}: other nodes share a wrapped module")
        new = {n.id for n in c.model.walk()}
        check(not new & ids and len(new) == len({n.id for n in members[i].model.walk()}), "ids-shared", f"copy of member {i}")
        ids.update(new)
        news = {s.id for n in c.model.walk() for s in n.shims}
        check(not news & shids, "ids-shared", f"wrapped modules of the copy of member {i}")
        shids.update(news)
        return c
    changed = set()
    if case["kind"] == "ops":
        for j, (op, i, x) in enumerate(case["events"]):
            i %= len(members)
            where = f"event {j} {op} on member {i}"
            if op == "copy":
                if len(members) < 4:
                    c = copy_of(i)
                    members.append(c)
                    # the history of the original, seen by a model that was built for itself
                    sh = shadow_from(m, seed, case, shadows[i], t)
                    shadows.append(sh)
                    same(state(sh.model), state(c.model), "copy-differs", where)
                continue
            C.seed_all(seed + 31 * j)
            a = do(members[i], m, seed + 17 * j, op, x, shared)
            C.seed_all(seed + 31 * j)
            b = do(shadows[i], m, seed + 17 * j, op, x, shadows[i].opt)
            shadows[i].history.append((j, op, x))
            if a is not None or b is not None:
                same(b, a, "result-differs", where)
            for k, (u, v) in enumerate(zip(members, shadows)):
                same(state(v.model), state(u.model), "not-independent" if k != i else "evolves-differently", f"{where}: member {k}")
            if op not in ("predict", "use_params"):
                changed.add(i)
            run.steps += 1
            run.log.add(op, i, x)
        run.nontrivial = len(changed) > 1
        run.measure.add(core.fp((tuple(sorted(zoo.kinds_in(m["spec"]))), tuple((e[0], e[1]) for e in case["events"]))))
        return
    # threads
    n = len(case["ops"])
    for _ in range(n - 1):
        members.append(copy_of(0))
        shadows.append(shadow_of(case["pre"]))
        shadows[-1].pending = []  # the callbacks belong to the original
        shadows[-1].opt = t.Adam(0.05, eps=0.05)

    def work(mb, i, opt):
        return lambda: [do(mb, m, seed + 17 * j, op, x, opt) for j, (op, x) in enumerate(case["ops"][i])]
    members[0].opt = shadows[0].opt = None
    want = [work(sh, i, t.Adam(0.05, eps=0.05))() for i, sh in enumerate(shadows)]
    s = C.run_threads([work(mb, i, t.Adam(0.05, eps=0.05)) for i, mb in enumerate(members)], case["sched"], run)
    C.raise_thread_errors(s)
    for i, (th, w) in enumerate(zip(s.threads, want)):
        for j, (a, b) in enumerate(zip(w, th.result)):
            if a is not None:
                same(a, b, "result-differs", f"thread {i} operation {j} {case['ops'][i][j]}")
        same(state(shadows[i].model), state(members[i].model), "not-independent", f"member {i}")
    run.nontrivial = True


def shadow_from(m, seed, case, of, t):
    """A separately built model that repeats the history of the shadow `of`."""
    opt = t.Adam(0.05, eps=0.05)
    sh = build(m, seed, case["pre"], opt)
    sh.opt = opt
    for j, op, x in of.history:
        if op == "copied":
            sh.pending, opt = [], t.Adam(0.05, eps=0.05)
            continue
        C.seed_all(seed + 31 * j)
        do(sh, m, seed + 17 * j, op, x, opt)
    # the pending callbacks and the optimizer state belong to the original
    sh.pending = []
    sh.opt = t.Adam(0.05, eps=0.05)
    sh.history = [*of.history, (0, "copied", 0)]
    return sh


def explicit(case, ex):
    return C.explicit_mode(case, ex) if case["kind"] == "threads" else case


def shrink(case):
    if case["kind"] == "premap":
        return
    if case["kind"] == "ops":
        for xs in core.shrink_list(case["events"], 1):
            yield {**case, "events": xs}
    else:
        for i, xs in enumerate(case["ops"]):
            for ys in core.shrink_list(xs):
                yield {**case, "ops": case["ops"][:i] + [ys] + case["ops"][i + 1:]}
    yield from C.shrink_key_list(case, "pre")
    yield from C.shrink_sched(case)
    yield from C.shrink_model(case)
