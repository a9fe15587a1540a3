"""C03: ids of models and wrapped modules stay unique under concurrent creation.

Simulated threads create, clone, copy and edit models and wrappers of PyTorch modules; the seeded scheduler preempts
them at instructions of the code under test, also between reading and writing the id counters.  Oracle: all ids of
all live nodes (and wrappers) are distinct, and ids once handed out do not change."""
from sim import core, zoo
from sim.core import check

from . import common as C

META = {
    "runs": {"quick": 4000, "thorough": 120000},
    "rule": "2-5 threads with 1-6 creating calls each, seeded preemption; non-trivial when a preemption inside the code "
            "under test happened",
    "measure": "distinct sequences of (thread, function, instruction offset, next thread)",
    "real": C.REAL,
    "stub": ["thread scheduler", "locks of the code under test (the id locks are simulated locks with the same semantics)"],
    "assumptions": ["preemption happens at bytecode instructions of thinc"],
}

OPS = ["linear", "linear", "model", "chain", "clone", "copy", "copy_shared", "torch", "torch", "shim", "shim", "torchlstm",
       "residual", "copy_torch", "clone_torch", "wrap", "fail", "tscript", "bidi", "init_copy", "subclass", "zoo_copy", "zoo_copy", "zoo_clone"]


def gen(r, tier):
    n = r.choice([2, 2, 3, 4, 5])
    small = r.random() < 0.4
    ops = ["model", "shim", "linear", "copy", "copy_shared", "copy_torch", "subclass"] if small else OPS
    case = {"seed": r.randrange(2 ** 30), "threads": [[r.choice(ops) for _ in range(r.randint(1, 6))] for _ in range(n)],
            "sched": C.gen_sched(r, n)}
    if small and case["sched"]["kind"] == "random":
        case["sched"]["gap"] = r.choice([2, 3, 5])
    return case


def describe(case):
    return {"threads": [" ".join(t) for t in case["threads"]]}


def run(case, run):
    import torch
    import thinc.api as t
    from thinc.layers import TorchScriptWrapper_v1
    from thinc.model import Model
    from thinc.shims import PyTorchShim, Shim
    shared = t.chain(t.Linear(2, 2), t.clone(t.Relu(2, 2), 2), t.PyTorchWrapper(torch.nn.Linear(2, 2))).initialize()
    made = []  # (model or shim, its ids when it was made)

    def fwd(model, X, is_train):
        return X, lambda d: d

    def node_ids(m):
        return [n.id for n in m.walk()]

    def shim_ids(m):
        return [s.id for n in m.walk() for s in n.shims]

    class S(Shim):
        pass

    class P(PyTorchShim):
        pass

    class M(Model):
        pass

    def copied(m):
        before = node_ids(m), shim_ids(m)
        c = m.copy()
        check((node_ids(m), shim_ids(m)) == before, "original-ids-changed", "copy() changed ids of the original")
        a, b = node_ids(c), shim_ids(c)
        check(len(a) == len(before[0]) and len(b) == len(before[1]), "copy-structure", "the copy has other nodes than the original")
        check(not set(a) & set(before[0]), "duplicate-model-id", "a copy shares node ids with its original")
        check(not set(b) & set(before[1]), "duplicate-shim-id", "a copy shares wrapper ids with its original")
        return c

    def act(op, r):
        if op in ("zoo_copy", "zoo_clone"):
            spec = zoo.gen(r, {"depth": 2})["spec"]
            while "tscript" in zoo.kinds_in(spec):
                spec = zoo.gen(r, {"depth": 2})["spec"]
            m = zoo.build(spec)
            if op == "zoo_copy":
                return [m, copied(m), copied(m)]
            return t.clone(m, r.choice([1, 2, 3]))
        if op == "linear":
            return t.Linear(2, 3)
        if op == "model":
            return Model("x", fwd, dims={"nI": None}, params={"W": None})
        if op == "subclass":
            return [M("x", fwd), M("y", fwd, layers=[t.Linear(2, 2)]), P(torch.nn.Linear(1, 1)), copied(M("z", fwd, layers=[M("a", fwd)]))]
        if op == "chain":
            return t.chain(t.Linear(2, 3), t.Relu(3, 2), t.Softmax(2, 2))
        if op == "residual":
            return t.residual(t.Maxout(2, 2))
        if op == "clone":
            return t.clone(t.Linear(2, 2), 3)
        if op == "copy":
            return copied(t.chain(t.Linear(2, 3), t.Linear(3, 2)))
        if op == "copy_shared":
            return copied(shared)
        if op == "init_copy":
            m = t.chain(t.Linear(2, 3), t.Linear(3, 2)).initialize()
            return [m, copied(m)]
        if op == "copy_torch":
            m = t.PyTorchWrapper(torch.nn.Linear(2, 2))
            return [m, copied(m)]
        if op == "clone_torch":
            return t.clone(t.PyTorchWrapper(torch.nn.Linear(2, 2)), 3)
        if op == "torch":
            return t.PyTorchWrapper_v2(torch.nn.Linear(2, 2))
        if op == "torchlstm":
            return t.PyTorchLSTM(2, 2)
        if op == "tscript":
            return TorchScriptWrapper_v1(script())
        if op == "shim":
            return [S(None), PyTorchShim(torch.nn.Linear(1, 1))]
        if op == "wrap":
            return t.with_array(t.with_padded(t.Linear(2, 2)))
        if op == "bidi":
            return t.bidirectional(t.with_array(t.Linear(2, 2)))
        if op == "fail":
            run.fault("failing_creation")
            try:
                t.clone(t.Linear(2, 2), "no number")
            except Exception:
                pass
            try:
                Model("x", fwd, layers=7)
            except TypeError:
                pass
            return t.Linear()
        raise core.HarnessError(op)

    cached = []

    def script():
        return cached[0]
    if any(op == "tscript" for th in case["threads"] for op in th):
        cached.append(torch.jit.script(torch.nn.Linear(2, 2)))

    def thread(k, ops):
        def body():
            for j, op in enumerate(ops):
                res = act(op, core.rng(case["seed"], "zoo", k, j))
                for x in res if isinstance(res, list) else [res]:
                    made.append((op, x, node_ids(x) if isinstance(x, Model) else None,
                                 shim_ids(x) if isinstance(x, Model) else [x.id]))
                run.log.add(op)
        return body

    C.seed_all(case["seed"])
    s = C.run_threads([thread(k, o) for k, o in enumerate(case["threads"])], case["sched"], run)
    C.raise_thread_errors(s)
    made.append(("shared", shared, node_ids(shared), shim_ids(shared)))
    ids, sids = {}, {}
    for op, x, nids, ss in made:
        if isinstance(x, Model):
            check(node_ids(x) == nids and shim_ids(x) == ss, "id-changed", f"ids of a model made by '{op}' changed")
            for node in x.walk():
                other = ids.get(node.id)
                check(other is None or other[0] is node, "duplicate-model-id",
                      lambda: f"two nodes made by '{op}' and '{other[1]}' share id {node.id}")
                ids[node.id] = (node, op)
                for sh in node.shims:
                    o2 = sids.get(sh.id)
                    check(o2 is None or o2[0] is sh, "duplicate-shim-id",
                          lambda: f"two wrappers made by '{op}' and '{o2[1]}' share id {sh.id}")
                    sids[sh.id] = (sh, op)
        else:
            check(x.id == ss[0], "id-changed", f"id of a shim made by '{op}' changed")
            o2 = sids.get(x.id)
            check(o2 is None or o2[0] is x, "duplicate-shim-id", lambda: f"two wrappers made by '{op}' and '{o2[1]}' share id {x.id}")
            sids[x.id] = (x, op)
    run.nontrivial = run.probes.get("preemptions", 0) > 0


explicit = C.explicit_mode


def shrink(case):
    yield from C.shrink_sched(case)
    for i, t in enumerate(case["threads"]):
        for t2 in core.shrink_list(t):
            yield {**case, "threads": case["threads"][:i] + [t2] + case["threads"][i + 1:]}
