"""C02: context settings of one thread or task never leak into another.

Simulated threads, each with an event loop of its own that runs tasks as coroutines in copied contexts, select
backends, operator bindings and data validation, in blocks and until further notice.  The seeded scheduler preempts
the threads at instructions of the code under test and each loop orders its tasks at random, cancelling some of them.
Oracle: every task keeps its own record of what it selected or inherited."""
import asyncio
import contextvars

from sim import core
from sim.core import check

from . import common as C

META = {
    "runs": {"quick": 2500, "thorough": 100000},
    "rule": "2-4 threads with 1-3 tasks each and seeded programs of nested context settings, seeded preemption and task "
            "order, cancellations; non-trivial when at least two threads or tasks were inside their programs at once",
    "measure": "distinct sequences of (thread, function, instruction offset, next thread) and task switches",
    "real": C.REAL,
    "stub": ["thread scheduler", "event loop", "locks of the code under test"],
    "assumptions": ["a task is suspended only where its coroutine awaits; threads are preempted at bytecode instructions of thinc"],
}

SYMS = ["+", ">>", "|", "**"]


def gen_prog(r, depth, spawn=True):
    out = []
    for _ in range(r.randint(2, 5)):
        x = r.random()
        if x < 0.45 and depth > 0:
            kind = r.choice(["ops", "operators", "validation"])
            out.append({"s": "block", "kind": kind, "name": r.choice(["numpy", "mps"]), "tag": r.randrange(10 ** 6),
                        "on": r.random() < 0.6, "syms": [s for s in SYMS if r.random() < 0.6],
                        "body": gen_prog(r, depth - 1, False), "catch": r.random() < 0.7})
        elif x < 0.55:
            out.append({"s": "setops", "name": r.choice(["numpy", "mps"]), "tag": r.randrange(10 ** 6)})
        elif x < 0.6:
            out.append({"s": "setval", "on": r.random() < 0.5})
        elif x < 0.66 and spawn:
            out.append({"s": "spawn", "prog": gen_prog(r, min(depth, 1), False)})
        elif x < 0.71:
            out.append({"s": "raise"})
        elif x < 0.75:
            out.append({"s": "cpu"})
        elif x < 0.8:
            out.append({"s": "model"})
        else:
            out.append({"s": "look"})
    return out


def gen(r, tier):
    n = r.choice([1, 2, 2, 3, 4])
    threads = []
    for _ in range(n):
        tasks = []
        for _ in range(r.choice([1, 1, 2, 3]) if n > 1 else r.choice([2, 3, 4])):
            t = {"prog": gen_prog(r, r.choice([1, 2, 3]))}
            if r.random() < 0.3:
                t["cancel"] = r.randint(1, 12)
                t["how"] = r.choice(["throw", "close"])
            tasks.append(t)
        threads.append({"tasks": tasks, "inherit": r.random() < 0.3, "first": r.random() < 0.5})
    return {"seed": r.randrange(2 ** 30), "threads": threads, "main": gen_prog(r, 1, False)[:2], "sched": C.gen_sched(r, n)}


def describe(case):
    def s(b):
        return b["kind"] + "(" + " ".join(s(x) for x in b["body"]) + ")" if b["s"] == "block" else b["s"]
    return {"threads": [[" ".join(s(x) for x in t["prog"]) for t in th["tasks"]] for th in case["threads"]]}


class Env:
    def __init__(self, ops=("numpy", -1), operators=None, validation=False):
        self.ops, self.operators, self.validation = ops, dict(operators or {}), validation

    def clone(self):
        return Env(self.ops, self.operators, self.validation)


class Task:
    def __init__(self, loop, prog, env, name, opts):
        self.loop, self.env, self.name, self.opts = loop, env, name, opts
        self.ctx = contextvars.copy_context()
        self.gen = self.body(prog)
        self.n = 0

    def look(self, where):
        import thinc.api as t
        from thinc.model import Model
        env = self.env
        o = t.get_current_ops()
        check((o.name, o.device_id) == env.ops, "leaked-ops", lambda: f"{self.name} {where}: backend is {(o.name, o.device_id)}, selected {env.ops}")
        a = Model("a", lambda model, X, is_train: (X, lambda d: d))
        check((a.ops.name, a.ops.device_id) == env.ops, "leaked-ops", lambda: f"{self.name} {where}: a new model got {a.ops.name}, selected {env.ops}")
        for sym, fn in (("+", lambda: a + a), (">>", lambda: a >> a), ("|", lambda: a | a), ("**", lambda: a ** a)):
            try:
                res = fn()
            except TypeError:
                res = None
            check(res == env.operators.get(sym), "leaked-operators",
                  lambda: f"{self.name} {where}: '{sym}' is bound to {res}, selected {env.operators.get(sym)}")
        from thinc.util import DataValidationError

        def two(model, X):
            return X
        try:
            Model("two", two).initialize(X=1)
            on = False
        except DataValidationError:
            on = True
        check(on == env.validation, "leaked-validation", lambda: f"{self.name} {where}: validation is {on}, selected {env.validation}")

    def body(self, stmts, w=""):
        import thinc.api as t
        from thinc.backends import set_current_ops
        from thinc.model import Model
        from thinc.util import DATA_VALIDATION, data_validation
        env = self.env
        for i, st in enumerate(stmts):
            where = f"{w}.{i}"
            s = st["s"]
            if s == "block":
                try:
                    saved = env.clone()
                    if st["kind"] == "ops":
                        cm = t.use_ops(st["name"], device_id=st["tag"])
                    elif st["kind"] == "operators":
                        cm = Model.define_operators({x: (lambda a, b, x=x: f"{x}{st['tag']}") for x in st["syms"]})
                    else:
                        cm = data_validation(st["on"])
                    try:
                        with cm:
                            if st["kind"] == "ops":
                                env.ops = (st["name"], st["tag"])
                            elif st["kind"] == "operators":
                                env.operators = {x: f"{x}{st['tag']}" for x in st["syms"]}
                            else:
                                env.validation = st["on"]
                            self.look(where + " entered")
                            yield
                            self.look(where + " resumed")
                            yield from self.body(st["body"], where)
                            self.look(where + " ends")
                    finally:
                        if st["kind"] == "ops":
                            env.ops = saved.ops
                        elif st["kind"] == "operators":
                            env.operators = saved.operators
                        else:
                            env.validation = saved.validation
                    self.look(where + " left")
                except (core.InjectedFault, asyncio.CancelledError):
                    self.look(where + " left by an exception")
                    if not st["catch"]:
                        raise
            elif s == "setops":
                set_current_ops(t.get_ops(st["name"], device_id=st["tag"]))
                env.ops = (st["name"], st["tag"])
            elif s == "setval":
                DATA_VALIDATION.set(st["on"])
                env.validation = st["on"]
            elif s == "cpu":
                t.require_cpu()
                env.ops = ("numpy", -1)
            elif s == "model":
                with t.use_ops("numpy", device_id=7):
                    m = t.Linear(2, 3)
                    check(m.ops.device_id == 7, "leaked-ops", f"{self.name} {where}: layer built on another backend")
                    m.initialize()
            elif s == "spawn":
                self.loop.add(st["prog"], env.clone(), f"{self.name}/child{where}", {})
            elif s == "raise":
                self.loop.run.fault("raise_in_task")
                raise core.InjectedFault("injected")
            self.look(where)
            self.loop.run.log.add(self.name, where, s)
            yield
            self.look(where + " after await")


class Loop:
    def __init__(self, run, rng, name):
        self.run, self.rng, self.name = run, rng, name
        self.tasks = []
        self.order = []
        self.violation = None

    def add(self, prog, env, name, opts):
        self.tasks.append(Task(self, prog, env, name, opts))

    def forever(self):
        live = list(self.tasks)
        seen = len(self.tasks)
        while live:
            t = live[self.rng.randrange(len(live))]
            self.order.append(t.name)
            t.n += 1
            if len(live) > 1:
                self.run.probe("tasks_interleaved")
            try:
                if t.opts.get("cancel") == t.n:
                    self.run.fault("task_cancelled:" + t.opts["how"])
                    if t.opts["how"] == "close":
                        t.ctx.run(t.gen.close)
                        t.ctx.run(t.look, "after close")
                        live.remove(t)
                    else:
                        t.ctx.run(t.gen.throw, asyncio.CancelledError())
                else:
                    t.ctx.run(t.gen.send, None)
            except (StopIteration, core.InjectedFault, asyncio.CancelledError):
                live.remove(t)
                t.ctx.run(t.look, "at the end")
            while seen < len(self.tasks):
                live.append(self.tasks[seen])
                seen += 1


def run(case, run):
    import thinc.api
    main = contextvars.copy_context()
    main.run(_main, case, run)
    thinc.api.get_current_ops()


def _main(case, run):
    from thinc.backends import set_current_ops
    import thinc.api as t
    from thinc.util import DATA_VALIDATION
    old = t.get_current_ops()
    try:
        run_main(case, run)
    finally:
        DATA_VALIDATION.set(False)
        set_current_ops(old)


def run_main(case, run):
    from thinc.backends import set_current_ops
    import thinc.api as t
    # what the main thread has selected
    loop = Loop(run, core.rng(case["seed"], "main"), "main")
    set_current_ops(t.get_ops("mps", device_id=12345))
    menv = Env(("mps", 12345))
    fns = []
    for i, th in enumerate(case["threads"]):
        rng = core.rng(case["seed"], i)
        ctx = contextvars.copy_context() if th["inherit"] else None
        tenv = menv.clone() if th["inherit"] else Env()

        def thread(i=i, th=th, rng=rng, tenv=tenv, ctx=ctx):
            def body():
                lp = Loop(run, rng, f"thread{i}")
                for j, task in enumerate(th["tasks"]):
                    lp.add(task["prog"], tenv.clone(), f"thread{i}.task{j}", task)
                lp.forever()
                t2 = Task(lp, [], tenv, f"thread{i}", {})
                t2.look("at its end")
                return lp.order
            return ctx.run(body) if ctx is not None else body()
        fns.append(thread)
    s = C.run_threads(fns, case["sched"], run)
    C.raise_thread_errors(s)
    Task(loop, [], menv, "main", {}).look("at the end")
    run.measure.add(core.fp(repr([x.result for x in s.threads])))
    run.nontrivial = run.probes.get("preemptions", 0) > 0 or run.probes.get("tasks_interleaved", 0) > 0


explicit = C.explicit_mode


def shrink(case):
    if case["sched"]["kind"] != "explicit" or True:
        for i in range(len(case["threads"])):
            if len(case["threads"]) > 1:
                ths = case["threads"][:i] + case["threads"][i + 1:]
                sc = case["sched"]
                if sc["kind"] == "explicit":
                    mv = lambda k: k - (k > i)  # noqa: E731
                    sc = {**sc, "switches": [[mv(a), c, mv(b)] for a, c, b in sc["switches"] if a != i and b != i],
                          "picks": [mv(k) for k in sc["picks"] if k != i]}
                yield {**case, "threads": ths, "sched": sc}
    yield from C.shrink_sched(case)
    for i, th in enumerate(case["threads"]):
        def put(th2):
            return {**case, "threads": case["threads"][:i] + [th2] + case["threads"][i + 1:]}
        for ts in core.shrink_list(th["tasks"], 1):
            yield put({**th, "tasks": ts})
        for j, t in enumerate(th["tasks"]):
            for p in shrink_prog(t["prog"]):
                yield put({**th, "tasks": th["tasks"][:j] + [{**t, "prog": p}] + th["tasks"][j + 1:]})


def shrink_prog(stmts):
    yield from core.shrink_list(stmts)
    for i, st in enumerate(stmts):
        if st["s"] == "block":
            yield stmts[:i] + st["body"] + stmts[i + 1:]
            for b in shrink_prog(st["body"]):
                yield stmts[:i] + [{**st, "body": b}] + stmts[i + 1:]
