"""C10: storage faults never yield a silently wrong or lost checkpoint.

Saves, loads and compatibility checks of one real model (and of its wrapped modules) run on simulated storage that
writes and reads short, fills up, fails on open, write, read and close, and crashes at any byte.  Oracle: the bytes
the model serialises to without faults, and a full snapshot of the model in memory."""
import os

from sim import core, instr, zoo
from sim.core import check
from sim.simfs import SimFS

from . import common as C

META = {
    "level": "fault_enumeration",
    "runs": {"quick": 3000, "thorough": 40000},
    "rule": "seeded model, 2-6 operations (save, load, check, cut) each with a seeded disk fault, plus cuts of the saved file "
            "at seeded bytes; non-trivial when a disk fault fired or a cut file was loaded",
    "measure": "distinct (model kinds, operation, fault kind, outcome) tuples",
    "real": C.REAL + ["Python file buffering"],
    "stub": ["raw file streams below the scratch directory"],
    "assumptions": ["after a crash a file that was being written keeps a prefix of what was written since it was opened"],
}


def gen_plan(r, writing):
    x = r.random()
    if x < 0.12:
        return {}
    if x < 0.3:
        return {"short": r.choice([1, 7, 100, 4000])} if writing else {"short_read": r.choice([1, 13, 500])}
    if x < 0.4:
        return {"open": r.choice(["eio", "enospc", "perm"] if writing else ["eio", "perm"])}
    if x < 0.5 and writing:
        return {"close": True}
    if writing:
        p = {"write": {"frac": r.choice([0.0, 1.0, r.random(), r.random()]), "kind": r.choice(["enospc", "eio", "crash", "crash"])}}
        if p["write"]["kind"] != "crash" and r.random() < 0.4:
            p["write"].update(once=True, kind=r.choice(["enospc", "eio", "eintr"]))
        if r.random() < 0.4:
            p["short"] = r.choice([1, 50, 3000])
        return p
    return {"read_frac": r.random(), **({"short_read": r.choice([7, 200])} if r.random() < 0.4 else {})}


def gen(r, tier):
    m = zoo.gen(r, {"depth": r.choice([1, 2])}) if r.random() < 0.8 else {
        "tin": "F2", "nI": 3, "spec": {"k": "chain", "c": [{"k": "torch", "arch": "mlp", "nI": 3, "nO": 2, "v": 3},
                                                           {"k": "relu", "nI": 2, "nO": 2}]}}
    if r.random() < 0.1:  # larger than the buffers in between
        m = {"tin": "F2", "nI": 60, "spec": {"k": "relu", "nI": 60, "nO": 90}}
    ops = []
    for _ in range(r.randint(2, 6)):
        op = r.choice(["save"] * 5 + ["load"] * 3 + ["can", "cut", "cut", "fail_save", "fail_save", "shim_save", "shim_load", "shim_fail", "shim_cut", "instr_save"])
        o = {"op": op, "path": r.choice(["path", "str"])}
        if op in ("save", "shim_save"):
            o["plan"] = gen_plan(r, True)
        elif op in ("load", "can", "shim_load"):
            o["plan"] = gen_plan(r, False)
        elif op in ("cut", "shim_cut"):
            o["frac"] = [r.choice([0.0, r.random(), r.random() ** 4, 1 - r.random() ** 4]) for _ in range(r.choice([3, 8]))]
        elif op == "fail_save":
            o["how"] = r.choice(["attr", "ref", "attr", "shim", "array"])
            o["node"] = r.randrange(10)
        elif op == "instr_save":
            o["n"] = int(10 ** r.uniform(0, 3.3))
        ops.append(o)
    return {"m": m, "seed": r.randrange(2 ** 30), "ops": ops, "trained": r.random() < 0.5}


def describe(case):
    return {"model": C.describe_model(case["m"]), "ops": [f"{o['op']} {o.get('plan', '')}" for o in case["ops"]]}


class Unserialisable:
    pass


def setup():
    from thinc.model import serialize_attr

    @serialize_attr.register(Unserialisable)
    def _(_, value, name, model):
        raise core.InjectedFault("attribute cannot be serialised")


def run(case, run):
    from pathlib import Path
    m, seed = case["m"], case["seed"]
    model = zoo.initialized(m, seed)
    C.seed_all(seed)
    if case["trained"]:
        C.train_step(model, m, seed + 5, 2)
    own = model.to_bytes()
    other = zoo.initialized(m, seed + 1)  # a different checkpoint of the same structure
    old = other.to_bytes()
    tscript = "tscript" in zoo.kinds_in(m["spec"])
    shims = [s for n in model.walk() for s in n.shims]
    with SimFS(run, core.rng(seed, "fs")) as fs:
        good = os.path.join(fs.root, "model.bin")
        with open(good, "wb") as f:
            f.write(old)
        content = {good: old}
        for j, o in enumerate(case["ops"]):
            op, where = o["op"], f"step {j} ({o['op']})"
            P = Path if o["path"] == "path" else str
            plan = dict(o.get("plan") or {})
            if "write" in plan:
                plan["write"] = {**plan["write"], "at": int(plan["write"]["frac"] * len(own))}
            if "read_frac" in plan:
                plan["read_at"] = int(plan.pop("read_frac") * len(own))
            before = zoo.full_state(model)
            outcome = "ok"
            if op in ("save", "shim_save"):
                path = good if op == "save" else os.path.join(fs.root, "shim.bin")
                if op == "shim_save" and not shims:
                    continue
                target = model if op == "save" else shims[j % len(shims)]
                expected = own if op == "save" else target.to_bytes()
                fs.arm(**plan)
                err = None
                try:
                    target.to_disk(P(path))
                except (OSError, core.SimCrash) as e:
                    err = e
                fired = [k for k in fs.fired]
                fs.disarm()
                crashed = fs.dead
                if crashed:
                    fs.restart()
                data = open(path, "rb").read() if os.path.exists(path) else None
                if err is None:
                    # a write that failed once may have been repeated, as long as the file is right
                    once = plan.get("write", {}).get("once")
                    check(not fired or once, "fault-swallowed", f"{where}: the save returned although the disk reported {fired}")
                    check(data == expected or tscript, "lost-data",
                          lambda: f"{where}: the save returned but the file has {len(data or b'')} bytes that are not the model's {len(expected)}")
                    if tscript and op == "save":
                        # TorchScript archives embed names that differ from save to save: compare what they hold
                        copy = zoo.initialized(m, seed + 77).from_bytes(data or b"")
                        C.eq(zoo.params(copy), zoo.params(model), "lost-data", where, exact=True)
                else:
                    check(bool(fired), "spurious-error", f"{where}: {err!r} without a fault")
                    outcome = fired[0]
                    run.nontrivial = True
                    if op == "save" and data not in (None, own, content.get(good)) and not (tscript and complete(m, seed, model, data)):
                        check_cut(model, P(path), data, where, run)
                if op == "save":
                    content[good] = data
            elif op == "instr_save":
                # interrupted at an arbitrary instruction: the file is the old one, the new one, or visibly cut
                instr.enable()
                exc = core.InjectedFault("interrupt")
                had = open(good, "rb").read() if os.path.exists(good) else None
                fs.opened = []
                try:
                    with instr.RaiseAt(o["n"], exc):
                        model.to_disk(P(good))
                    raised = False
                except core.InjectedFault:
                    raised = True
                    run.fault("interrupt_in_save")
                    run.nontrivial = True
                data = open(good, "rb").read() if os.path.exists(good) else None
                if not raised:
                    check(data == own or tscript, "lost-data", where)
                elif data not in (had, own) and not (tscript and complete(m, seed, model, data)):
                    check(had is None or data is not None, "file-lost", where)
                    check_cut(model, P(good), data, where, run)
                content[good] = data
            elif op == "fail_save":
                node = list(model.walk())[o["node"] % len(list(model.walk()))]
                had = open(good, "rb").read() if os.path.exists(good) else None
                undo = break_save(o["how"], node, model)
                if undo is None:
                    continue
                run.fault("serialisation_fails:" + o["how"])
                run.nontrivial = True
                err = None
                try:
                    model.to_disk(P(good))
                except Exception as e:
                    err = e
                undo()
                data = open(good, "rb").read() if os.path.exists(good) else None
                check(err is not None, "fault-swallowed", f"{where}: saving a model that cannot be serialised ({o['how']}) returned")
                check(data == had, "existing-file-lost",
                      lambda: f"{where}: a save that failed before it had its data ({type(err).__name__}) changed the file "
                              f"from {len(had or b'')} to {len(data) if data is not None else None} bytes")
            elif op == "shim_fail":
                # a wrapped module saved on its own, with a serialisation that fails
                if not shims:
                    continue
                s = shims[j % len(shims)]
                path, had = os.path.join(fs.root, "own.bin"), s.to_bytes()
                with open(path, "wb") as f:
                    f.write(had)
                err, undo = None, break_shim(s)
                try:
                    s.to_disk(P(path))
                except Exception as e:
                    err = e
                undo()
                run.fault("serialisation_fails:own shim")
                run.nontrivial = True
                data = open(path, "rb").read() if os.path.exists(path) else None
                check(err is not None, "fault-swallowed", f"{where}: saving a wrapped module that cannot be serialised returned")
                check(data == had, "existing-file-lost", lambda: f"{where}: a save of a wrapped module that failed before it had its data "
                      f"changed the file from {len(had)} to {len(data) if data is not None else None} bytes")
            elif op == "shim_cut":
                if not shims:
                    continue
                s = shims[j % len(shims)]
                path, whole = os.path.join(fs.root, "cutshim.bin"), s.to_bytes()
                for fr in o["frac"]:
                    n = min(len(whole) - 1, int(fr * len(whole)))
                    with open(path, "wb") as f:
                        f.write(whole[:n])
                    run.fault("file_cut")
                    run.nontrivial = True
                    try:
                        s.from_disk(P(path))
                        raised = False
                    except Exception:
                        raised = True
                    check(raised, "cut-file-loaded", f"{where}: a wrapped module loaded {n} of {len(whole)} bytes")
            elif op in ("load", "can", "shim_load"):
                path = os.path.join(fs.root, "load.bin")
                target = model
                if op == "shim_load":
                    if not shims:
                        continue
                    target = shims[j % len(shims)]
                payload = own if op != "shim_load" else target.to_bytes()
                with open(path, "wb") as f:
                    f.write(payload)
                fresh = zoo.initialized(m, seed + 3 + j) if op == "load" else None
                tgt = fresh if op == "load" else target
                st = zoo.full_state(fresh if fresh is not None else model)
                fs.arm(**plan)
                err = res = None
                try:
                    res = tgt.can_from_disk(P(path)) if op == "can" else tgt.from_disk(P(path))
                except OSError as e:
                    err = e
                except Exception as e:
                    if not fs.fired:
                        raise
                    err = e
                fired = list(fs.fired)
                fs.disarm()
                if fired:
                    run.nontrivial = True
                    outcome = fired[0]
                    if op == "can":
                        check(err is not None or res is False, "fault-swallowed", f"{where}: {res} although the disk reported {fired}")
                    else:
                        check(err is not None, "fault-swallowed", f"{where}: the load returned although the disk reported {fired}")
                        d = zoo.exact(st, zoo.full_state(fresh if fresh is not None else model))
                        check(d is None, "failed-load-changed-model", lambda: f"{where}: {d}")
                else:
                    check(err is None, "spurious-error", f"{where}: {err!r}")
                    if op == "can":
                        check(res is True, "own-bytes-incompatible", where)
                    elif op == "load":
                        check(fresh.to_bytes() == own or tscript, "loaded-wrong", where)
                        C.eq(zoo.params(fresh), zoo.params(model), "loaded-wrong", where, exact=True)
            elif op == "cut":
                path = os.path.join(fs.root, "cut.bin")
                for fr in o["frac"]:
                    n = min(len(own) - 1, int(fr * len(own)))
                    with open(path, "wb") as f:
                        f.write(own[:n])
                    run.fault("file_cut")
                    run.nontrivial = True
                    check_cut(model, P(path), own[:n], f"{where} at byte {n} of {len(own)}", run)
            if op not in ("shim_load",):
                d = zoo.exact(before, zoo.full_state(model))
                check(d is None, "model-changed", lambda: f"{where}: {d}")
            run.steps += 1
            run.log.add(op, outcome)
            run.measure.add(core.fp((tuple(sorted(zoo.kinds_in(m["spec"]))), op, str(sorted(plan)), outcome)))


def complete(m, seed, model, data):
    """Is this a whole checkpoint of the model?  (TorchScript archives differ from save to save.)"""
    try:
        copy = zoo.initialized(m, seed + 77).from_bytes(data)
    except Exception:
        return False
    return zoo.exact(zoo.params(copy), zoo.params(model)) is None


def check_cut(model, path, data, where, run):
    """A file that is a proper prefix of a checkpoint."""
    state = zoo.full_state(model)
    try:
        ok = model.can_from_disk(path)
    except Exception as e:
        raise core.Violation("cut-file-check-raises", f"{where}: can_from_disk raised {type(e).__name__}: {e}")
    check(ok is False, "cut-file-compatible", f"{where}: a file of {len(data)} bytes is reported as compatible")
    try:
        model.from_disk(path)
        raised = False
    except Exception:
        raised = True
    check(raised, "cut-file-loaded", f"{where}: loading a cut file of {len(data)} bytes returned")
    d = zoo.exact(state, zoo.full_state(model))
    check(d is None, "failed-load-changed-model", lambda: f"{where}: {d}")
    run.probe("cut_files_checked")


def break_shim(s):
    cls = type(s)

    class Bad(cls):
        def to_bytes(self):
            raise core.InjectedFault("wrapped module cannot be serialised")
    s.__class__ = Bad

    def undo():
        s.__class__ = cls
    return undo


def break_save(how, node, model):
    if how == "attr":
        node.attrs["sim_bad"] = Unserialisable()
        return lambda: node.attrs.pop("sim_bad")
    if how == "ref":
        from thinc.api import Linear
        out = Linear(1, 1)
        node._refs["sim_ref"] = out
        return lambda: node._refs.pop("sim_ref")
    if how == "shim":
        for n in model.walk():
            for s in n.shims:
                return break_shim(s)
        return None
    # a parameter that cannot be packed
    for n in model.walk():
        for name in n.param_names:
            if n.has_param(name):
                good = n.get_param(name)
                n.set_param(name, object())
                return lambda: n.set_param(name, good)
    return None


def shrink(case):
    yield from C.shrink_key_list(case, "ops", 1)
    for i, o in enumerate(case["ops"]):
        if "frac" in o:
            for fr in core.shrink_list(o["frac"], 1):
                yield {**case, "ops": case["ops"][:i] + [{**o, "frac": fr}] + case["ops"][i + 1:]}
    if case["trained"]:
        yield {**case, "trained": False}
    yield from C.shrink_model(case)
