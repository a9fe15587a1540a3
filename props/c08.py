"""C08: remote parameters: reads come from the proxy, gradients go there once.

Workers (simulated threads, each a process with its own model) train against a parameter server over a simulated
network that loses, duplicates, delays and reorders messages, partitions and stalls, while the server refuses calls
and workers crash and restart.  The proxy records every call the code under test makes and what it answered.  Oracle:
the same operation on a model whose parameter storage is a reference implementation of the proxy contract, which is
fed the recorded answers and failures: calls, results, errors and local values must agree."""
import numpy

from sim import core, instr, net as N, sched as S, zoo
from sim.core import check

from . import common as C

META = {
    "runs": {"quick": 4000, "thorough": 20000},
    "rule": "1-4 workers with seeded programs (train, predict, read, write, save, load, copy, averages, set_grad), seeded "
            "network faults, server errors and crashes; non-trivial when two workers ran or a fault fired",
    "measure": "distinct sequences of (thread, function, instruction offset, next thread) and deliveries",
    "real": C.REAL,
    "stub": ["thread scheduler", "virtual clock", "network", "parameter server", "RPC client with retries behind the proxy"],
    "assumptions": ["the proxy answers each call once: retries and deduplication are the RPC client's business"],
}

OPS = ["train"] * 6 + ["predict"] * 2 + ["read", "write", "bytes", "load", "copy", "use_params", "set_grad", "finish", "grads", "inflight"]


def gen(r, tier):
    n = r.choice([1, 2, 2, 3, 4])
    m = zoo.gen(r, {"dropout": False, "torch": False, "depth": r.choice([1, 2]), "window": True})
    faulty = r.random() < 0.75
    net = {"loss": r.choice([0, 0.05, 0.2, 0.4]) if faulty else 0, "dup": r.choice([0, 0.1, 0.4]) if faulty else 0,
           "delay": r.choice([[0.001, 0.01], [0.001, 0.5], [0.01, 2.5]]) if faulty else [0.01, 0.02], "parts": [], "stalls": []}
    if faulty and r.random() < 0.4:
        for _ in range(r.randint(1, 3)):
            a = r.uniform(0, 30)
            net["parts"].append([r.choice([-1] + list(range(n))), a, a + r.choice([0.5, 3, 10])])
    if faulty and r.random() < 0.3:
        a = r.uniform(0, 10)
        net["stalls"].append([a, a + r.choice([1, 5])])
    workers = []
    for _ in range(n):
        w = {"ops": [r.choice(OPS) for _ in range(r.randint(2, 6))]}
        if faulty and r.random() < 0.25:
            w["crash_at"] = round(r.uniform(0, 20), 3)
        if r.random() < 0.3:
            w["pregrads"] = True
        workers.append(w)
    return {"m": m, "seed": r.randrange(2 ** 30), "net": net, "errors": r.choice([0, 0, 0.03, 0.15]) if faulty else 0,
            "workers": workers, "sched": C.gen_sched(r, n)}


def describe(case):
    return {"model": C.describe_model(case["m"]), "workers": [" ".join(w["ops"]) for w in case["workers"]], "net": case["net"]}


class RefParams:
    """The proxy contract, fed with recorded answers."""

    def __init__(self, ix, local, kept):
        self.ix, self.local, self.kept, self.script = ix, local, kept, None
        self.proxy = None

    def _next(self, op, name, value=None):
        return self.script.take(op, self.ix, name, value)

    @property
    def param_keys(self):
        return tuple(self.local)

    @property
    def grad_keys(self):
        return tuple(self.kept)

    def has_param(self, _, name):
        return name in self.local

    def has_grad(self, _, name):
        return name in self.kept

    def get_param(self, _, name):
        v = self._next("get", name)
        self.local[name] = v
        return v

    def get_grad(self, _, name):
        return self.kept[name]

    def set_param(self, _, name, value):
        self._next("set", name, value)
        self.local[name] = value

    def set_grad(self, _, name, value):
        self._next("set_grad", name, value)

    def inc_grad(self, _, name, value):
        self._next("inc", name, value)


class Script:
    """The calls recorded for one operation, in order."""

    def __init__(self, calls):
        self.calls, self.i = calls, 0

    def take(self, op, ix, name, value):
        check(self.i < len(self.calls), "proxy-bypassed",
              lambda: f"{op}({ix}, {name}) did not reach the proxy ({len(self.calls)} calls were made)")
        c = self.calls[self.i]
        self.i += 1
        check(c["op"] == op and c["ix"] == ix and c["name"] == name, "proxy-calls-differ",
              lambda: f"call {self.i}: the proxy got {c['op']}({c['ix']}, {c['name']}), expected {op}({ix}, {name})")
        if value is not None:
            d = zoo.diff(numpy.asarray(c["value"]), numpy.asarray(value), 1e-5, 1e-7)
            check(d is None, "proxy-value-differs", lambda: f"{op}({ix}, {name}): {d}")
        if c.get("failed"):
            raise c["failed"]
        return c["answer"]


class Proxy:
    """What a worker's ParamServer talks to."""

    def __init__(self, client, run):
        self.client, self.run = client, run
        self.calls = []
        self.index = {}
        self.nodes = {}
        self.legit = {}  # what may be visible locally: the last value served or written

    def attach(self, model):
        for i, node in enumerate(model.walk()):
            self.index[node.id] = i
            self.nodes[i] = node
            node._params.proxy = self

    def _call(self, op, node_id, name, value=None):
        if getattr(S.current(), "killed", False):
            raise core.SimCrash()  # the clean-up of the code under test does not run in a process that is gone
        check(node_id in self.index, "proxy-wrong-node", f"{op} for unknown node id {node_id}")
        ix = self.index[node_id]
        rec = {"op": op, "ix": ix, "name": name, "value": None if value is None else numpy.array(value), "answer": None}
        self.calls.append(rec)
        if op == "set":
            local = peek(self.nodes[ix], name)
            check(local is not value or self.legit.get((ix, name)) is value, "visible-before-proxy",
                  f"the new value of ({ix}, {name}) was visible locally before the proxy had it")
        try:
            ans = self.client.call((op, ix, name, None if value is None else numpy.array(value)))
        except N.RpcError as e:
            rec["failed"] = e
            raise
        if op == "get":
            rec["answer"] = ans.copy()  # the caller may work in place on what it got
            self.legit[ix, name] = ans
            return ans
        if op == "set":
            self.legit[ix, name] = value

    def get_param(self, node_id, name):
        return self._call("get", node_id, name)

    def set_param(self, node_id, name, value):
        self._call("set", node_id, name, value)

    def set_grad(self, node_id, name, value):
        self._call("set_grad", node_id, name, value)

    def inc_grad(self, node_id, name, value):
        self._call("inc", node_id, name, value)


def peek(node, name):
    """The local value, as it would be seen after detaching the proxy."""
    ps = node._params
    p, ps.proxy = ps.proxy, None
    try:
        return ps.get_param(node.id, name) if ps.has_param(node.id, name) else None
    finally:
        ps.proxy = p


def operate(model, m, op, seed, other_bytes):
    """One operation of a worker; returns comparable results."""
    import thinc.api as t
    if op in ("train", "inflight"):
        X = zoo.batch(m, seed, 2)
        Y, bp = model.begin_update(X)
        if op == "inflight":
            Y2, bp2 = model.begin_update(zoo.batch(m, seed + 5, 2))
            bp2(zoo.grad_like(Y2, seed + 6))
        dX = bp(zoo.grad_like(Y, seed + 1))
        return [zoo.snapshot(Y)] + ([] if C.ints_in(m) else [zoo.snapshot(dX)])
    if op == "predict":
        return [zoo.snapshot(model.predict(zoo.batch(m, seed, 2)))]
    if op == "read":
        return [(i, n, node.get_param(n).copy()) for i, node in enumerate(model.walk()) for n in node.param_names if node.has_param(n)]
    if op == "write":
        r = zoo.npr(seed)
        for node in model.walk():
            for n in node.param_names:
                if node.has_param(n):
                    p = node.get_param(n)
                    node.set_param(n, r.uniform(-1, 1, p.shape).astype(p.dtype))
        return []
    if op == "bytes":
        return [model.to_bytes()]
    if op == "load":
        model.from_bytes(other_bytes)
        return []
    if op == "copy":
        c = model.copy()
        X = zoo.batch(m, seed, 2)
        Y, bp = c.begin_update(X)
        bp(zoo.grad_like(Y, seed + 1))
        return [zoo.snapshot(Y), zoo.grads(c)]
    if op == "use_params":
        r = zoo.npr(seed)
        params = {}
        for node in model.walk():
            for n in node.param_names:
                if node.has_param(n) and r.uniform() < 0.5:
                    params[(node.id, n)] = r.uniform(-1, 1, node.get_param(n).shape).astype("f")
        with model.use_params(params):
            return [zoo.snapshot(model.predict(zoo.batch(m, seed, 2)))]
    if op == "set_grad":
        for node in model.walk():
            for n in node.param_names:
                if node.has_param(n):
                    node.set_grad(n, zoo.npr(seed).uniform(-1, 1, node.get_param(n).shape).astype("f"))
        return []
    if op == "finish":
        model.finish_update(t.SGD(0.1))
        return []
    if op == "grads":
        at = {n.id: i for i, n in enumerate(model.walk())}
        return [sorted((at[k], name) for k, name in model.get_gradients()), [list(n.grad_names) for n in model.walk()]]
    raise core.HarnessError(op)


def run(case, run):
    instr.enable()
    m, seed = case["m"], case["seed"]
    sch = S.Sched(run, case["sched"], core.rng("sched", case["sched"].get("seed", 0)))
    net = N.Net(sch, run, core.rng(seed, "net"), case["net"])
    store, log = {}, []

    def handle(client, req):
        op, ix, name, value = req
        run.log.add("server", client, op, ix, name)
        if op == "get":
            return store[(ix, name)].copy()
        log.append((client, op, ix, name))
        if op == "set":
            store[(ix, name)] = value
        elif op == "inc":
            store[(ix, name)] = (store[(ix, name)] - 0.05 * value).astype(value.dtype)
    server = N.Server(net, run, core.rng(seed, "server"), handle, case["errors"])
    base = zoo.initialized(m, seed)
    for i, node in enumerate(base.walk()):
        for n in node.param_names:
            if node.has_param(n):
                store[(i, n)] = node.get_param(n).copy()
    other = zoo.initialized(m, seed + 77).to_bytes()
    models = [zoo.initialized(m, seed) for _ in case["workers"]]
    spare = [zoo.initialized(m, seed) for _ in case["workers"]]
    refs = [zoo.initialized(m, seed) for _ in case["workers"]]
    faults = (N.RpcError,)

    def step(w, model, ref, proxy, local, kept, op, opseed):
        proxy.calls = []
        res = err = None
        try:
            res = operate(model, m, op, opseed, other)
        except faults as e:
            err = e
            run.probe("call_failed_for_good")
        except S.Deadlock:
            raise
        calls = proxy.calls
        if any(c.get("failed") for c in calls):
            check(err is not None, "failure-swallowed", f"worker {w}: the proxy failed during '{op}' but the caller saw no error")
        script = Script(calls)
        for i, node in enumerate(ref.walk()):
            node._params.script = script
        rres = rerr = None
        try:
            rres = operate(ref, m, op, opseed, other)
        except faults as e:
            rerr = e
        check(err is rerr, "errors-differ", f"worker {w}, {op}: got {err!r}, expected {rerr!r}")
        check(script.i == len(calls), "extra-proxy-calls",
              lambda: f"worker {w}, {op}: {len(calls)} calls reached the proxy, expected {script.i}; first extra: "
                      f"{calls[script.i]['op']}({calls[script.i]['ix']}, {calls[script.i]['name']})")
        if err is None:
            check(len(res) == len(rres), "results-differ", op)
            for a, b in zip(res, rres):
                if op == "grads":
                    check(res == rres, "gradient-kept-locally", lambda: f"worker {w}: gradients {res}, expected {rres}")
                    break
                if isinstance(a, bytes):
                    check(a == b, "results-differ", f"worker {w}, {op}: bytes differ")
                else:
                    C.eq(a, b, "results-differ", f"worker {w}, {op}")
        for i, node in enumerate(model.walk()):
            for n in node.param_names:
                loc = peek(node, n)
                d = zoo.exact(loc, local[i].get(n))
                check(d is None, "local-value-differs", lambda: f"worker {w} after {op} ({'failed' if err else 'ok'}): local value of ({i}, {n}): {d}")
                d = zoo.exact(node.get_grad(n) if node.has_grad(n) else None, kept[i].get(n))
                check(d is None, "gradient-kept-locally", lambda: f"worker {w} after {op}: gradient of ({i}, {n}) besides those from "
                                                                  f"before the proxy was attached: {d}")
        return err

    finished = []

    def worker(w):
        def attach(model, inc):
            client = N.Client(sch, net, server, run, w if inc == 0 else w + 100 * inc)
            proxy = Proxy(client, run)
            ref = refs[w]
            local, kept = {}, {}
            if case["workers"][w].get("pregrads"):
                # a batch from before the proxy was attached
                C.train_step(model, m, seed + w, 2)
                run.probe("gradients_before_proxy")
            for i, node in enumerate(ref.walk()):
                src = list(model.walk())[i]
                local[i] = {n: src.get_param(n).copy() for n in src.param_names if src.has_param(n)}
                kept[i] = {n: src.get_grad(n).copy() for n in src.param_names if src.has_grad(n)}
                ps = RefParams(i, local[i], kept[i])
                node._params = ps
            proxy.attach(model)
            return proxy, local, kept

        def life(model, inc, ops):
            proxy, local, kept = attach(model, inc)
            for j, op in ops:
                run.log.add("worker", w, op)
                step(w, model, refs[w], proxy, local, kept, op, seed + 1000 * w + 10 * j)
            return proxy, local, kept

        def body():
            t = S.current()
            model = models[w]
            ops = list(enumerate(case["workers"][w]["ops"]))
            try:
                proxy, local, kept = life(model, 0, ops)
            except core.SimCrash:
                run.fault("worker_crash")
                t.killed = False
                model = spare[w]
                proxy, local, kept = life(model, 1, ops[len(ops) // 2:])
            t.kill, t.killed = None, False
            t.crashable = False
            finished.append(w)
            sch.block_until(lambda: len(finished) == len(case["workers"]))
            # faults stop: the worker must be able to read what the server has now
            net.off = True
            err = step(w, model, refs[w], proxy, local, kept, "read", 0)
            check(err is None, "no-progress", f"worker {w}: reading fails although the faults have stopped")
        return body

    for w in range(len(case["workers"])):
        t = sch.spawn(worker(w), f"worker{w}")
        if "crash_at" in case["workers"][w]:
            def crash(t=t):
                if not t.done and getattr(t, "crashable", True):
                    t.kill = core.SimCrash()
                    t.next_stop = 0
            sch.after(case["workers"][w]["crash_at"], crash)
    sch.run()
    C.raise_thread_errors(sch)
    run.nontrivial = len(case["workers"]) > 1 or bool(run.faults)


explicit = C.explicit_mode


def shrink(case):
    for i, w in enumerate(case["workers"]):
        for ops in core.shrink_list(w["ops"]):
            yield {**case, "workers": case["workers"][:i] + [{**w, "ops": ops}] + case["workers"][i + 1:]}
        if "crash_at" in w:
            yield {**case, "workers": case["workers"][:i] + [{"ops": w["ops"]}] + case["workers"][i + 1:]}
    nt = case["net"]
    for k, v in (("loss", 0), ("dup", 0), ("delay", [0.01, 0.02]), ("parts", []), ("stalls", [])):
        if nt[k] != v:
            yield {**case, "net": {**nt, k: v}}
    if case["errors"]:
        yield {**case, "errors": 0}
    yield from C.shrink_sched(case)
    yield from C.shrink_model(case)
