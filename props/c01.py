"""C01: scoped overrides are undone however the block ends.

A seeded program of nested override blocks runs on one real model as a coroutine that the simulator drives step by
step: it can raise inside a body (also at an arbitrary instruction of a running prediction), make the entry of a
block fail half way, or cancel / close the whole coroutine at any suspension point.  Oracle: a small interpreter that
keeps the values in effect and, per block, the values to put back."""
import asyncio
import os
import shutil
import tempfile

import numpy

from sim import core, instr, zoo
from sim.core import check

from . import common as C

META = {
    "runs": {"quick": 8000, "thorough": 80000},
    "rule": "seeded model and seeded program of up to 4 levels of nested blocks (use_params, use_ops, define_operators, "
            "data_validation, make_tempfile) with raises, cancellations and failing entries; non-trivial when a block was "
            "left by an exception or its entry failed",
    "measure": "distinct (block kinds nesting, way each block ended) histories",
    "real": C.REAL,
    "stub": ["driver of the coroutine that runs the blocks", "failing set_param/load_state_dict/close calls"],
    "assumptions": ["failures of an entry happen in a call that the entry makes, not between two of its instructions"],
}

SYMS = ["+", ">>", "|", "@", "**"]
OPS = ["numpy", "mps"]
EXC = ["fault", "kbd", "mem", "cancel", "stop", "exit"]


def make_exc(kind):
    return {"fault": core.InjectedFault("injected"), "kbd": KeyboardInterrupt(), "mem": MemoryError("injected"),
            "cancel": asyncio.CancelledError(), "stop": StopIteration("injected"), "exit": SystemExit(3)}[kind]


def gen_block(r, depth):
    kind = r.choice(["params"] * 6 + ["ops", "ops", "operators", "operators", "validation", "tempfile"])
    b = {"kind": kind, "catch": r.random() < 0.6, "seed": r.randrange(10 ** 6)}
    if kind == "params":
        b.update(frac=r.choice([0.2, 0.5, 1.0]), node=r.choice([0, 0, 0, r.randrange(8)]), shims=r.random() < 0.7,
                 foreign=r.random() < 0.3)
        if r.random() < 0.2:
            b["entry"] = r.choice(["set", "set", "get", "load_before", "load_after", "badshape", "missing"])
            b["nth"] = r.randint(1, 6)
            b["exc"] = r.choice(EXC)
    elif kind == "ops":
        b["name"] = r.choice(OPS)
        if r.random() < 0.12:
            b["entry"] = "bad"
    elif kind == "operators":
        b["syms"] = [s for s in SYMS if r.random() < 0.5]
        if r.random() < 0.12:
            b["entry"] = "bad"
    elif kind == "validation":
        b["on"] = r.random() < 0.5
    else:
        b["mode"] = r.choice(["w", "wb", "r"])
        x = r.random()
        if x < 0.12:
            b["entry"] = "bad"
        elif x < 0.3:
            b["close_fails"] = True
    b["body"] = gen_body(r, depth - 1)
    return b


def gen_body(r, depth):
    out = []
    for _ in range(r.randint(1, 4)):
        x = r.random()
        if x < 0.4 and depth > 0:
            out.append(gen_block(r, depth))
        elif x < 0.55:
            out.append({"s": "predict"})
        elif x < 0.62:
            out.append({"s": "set", "i": r.randrange(20), "seed": r.randrange(10 ** 6)})
        elif x < 0.66:
            out.append({"s": "setops", "name": r.choice(OPS)})
        elif x < 0.76:
            out.append({"s": "raise", "exc": r.choice(EXC)})
        elif x < 0.84:
            out.append({"s": "instr", "n": int(10 ** r.uniform(0, 3)), "exc": r.choice(EXC)})
        else:
            out.append({"s": "look"})
    return out


def gen(r, tier):
    m = zoo.gen(r, {"depth": 2, "dropout": False, "torch_rand": True, "vanilla": 0.1, "lstm": r.random() < 0.3, "torch": r.random() < 0.8})
    prog = []
    for _ in range(r.randint(1, 3)):
        prog.append(gen_block(r, r.choice([1, 2, 3, 4])))
        prog[-1]["catch"] = True
    case = {"m": m, "seed": r.randrange(2 ** 30), "prog": prog}
    if r.random() < 0.35:
        case["stop"] = {"at": r.randint(1, 25), "how": r.choice(["close", "close", "throw"]), "exc": r.choice(EXC)}
    return case


def describe(case):
    def s(b):
        return b["s"] if "s" in b else b["kind"] + "(" + " ".join(s(x) for x in b["body"]) + ")"
    return {"model": C.describe_model(case["m"]), "program": " ".join(s(b) for b in case["prog"]), "stop": case.get("stop")}


class World:
    def __init__(self, case, run, scratch):
        import thinc.api as t
        from thinc.model import Model
        self.t, self.Model = t, Model
        self.case, self.run, self.scratch = case, run, scratch
        self.m, self.seed = case["m"], case["seed"]
        self.model = zoo.initialized(self.m, self.seed)
        self.ref = zoo.initialized(self.m, self.seed)
        self.X = zoo.batch(self.m, self.seed + 9, 2)
        self.nodes = list(self.model.walk())
        self.cur = zoo.params(self.model)
        self.ops = t.get_current_ops()
        self.operators = {}
        self.validation = False
        self.files = []
        self.a = Model("a", lambda model, X, is_train: (X, lambda d: d))
        self.b = Model("b", lambda model, X, is_train: (X, lambda d: d))

        def two(model, X):  # an invalid forward function: initialize complains exactly when validation is on
            return X

        self.typed = Model("typed", two)
        self.keys_of = {}
        for i, node in enumerate(self.nodes):
            ks = [f"{i}:{node.name}:{n}" for n in node.param_names if node.has_param(n)]
            self.keys_of[i] = (ks, [[k for k in self.cur if k.startswith(f"{i}:{node.name}:shim{j}:")] for j in range(len(node.shims))])
        self.all_keys = [k for i in self.keys_of for k in self.keys_of[i][0]]
        self.history = []

    # -- what is in effect
    def look(self, where):
        t = self.t
        got = zoo.params(self.model)
        d = zoo.exact(got, self.cur)
        check(d is None, "wrong-params", lambda: f"{where}: parameter values in effect: {d}")
        o = t.get_current_ops()
        if isinstance(self.ops, str):
            check(o.name == self.ops, "wrong-ops", f"{where}: active backend is {o.name}, not {self.ops}")
        else:
            check(o is self.ops, "wrong-ops", f"{where}: the active backend object is not the one that was active before")
        from thinc.backends import contextvars_eq_thread_ops
        check(contextvars_eq_thread_ops(), "wrong-ops", f"{where}: context and thread disagree about the backend")
        for sym, fn in [("+", lambda x, y: x + y), (">>", lambda x, y: x >> y), ("|", lambda x, y: x | y),
                        ("@", lambda x, y: x @ y), ("**", lambda x, y: x ** y)]:
            try:
                res = fn(self.a, self.b)
            except TypeError:
                res = None
            exp = self.operators.get(sym)
            check(res == exp, "wrong-operators", f"{where}: '{sym}' is bound to {res}, not {exp}")
        from thinc.util import DataValidationError
        try:
            self.typed.initialize(X=1)
            validated = False
        except DataValidationError:
            validated = True
        check(validated == self.validation, "wrong-validation", f"{where}: data validation is {validated}, not {self.validation}")
        have = sorted(os.listdir(self.scratch))
        check(have == sorted(self.files), "temp-files", f"{where}: temporary files {have}, expected {sorted(self.files)}")
        self.run.steps += 1

    def predict(self, where):
        nodes = list(self.ref.walk())
        import torch
        for i, node in enumerate(nodes):
            for n in node.param_names:
                key = f"{i}:{node.name}:{n}"
                if key in self.cur:
                    node.set_param(n, self.cur[key].copy())
            for j, shim in enumerate(node.shims):
                pre = f"{i}:{node.name}:shim{j}:"
                sd = {}
                for name in shim._model.state_dict():
                    for kind in ("p:", "b:"):
                        if pre + kind + name in self.cur:
                            sd[name] = torch.from_numpy(self.cur[pre + kind + name].copy())
                full = shim._model.state_dict()
                full.update(sd)
                for name, v in full.items():  # tied parameters share one value
                    if name not in sd:
                        alias = [k for k, w in shim._model.state_dict().items() if w.data_ptr() == v.data_ptr() and k in sd]
                        if alias:
                            full[name] = sd[alias[0]]
                shim._model.load_state_dict(full)
        exp = zoo.snapshot(self.ref.predict(self.X))
        C.eq(zoo.snapshot(self.model.predict(self.X)), exp, "wrong-prediction", f"{where}: prediction with the values in effect")

    # -- use_params
    def override(self, b):
        """(node, params dict, new values by our keys)"""
        import torch
        r = zoo.npr(b["seed"])
        root = self.nodes[b["node"] % len(self.nodes)]
        sub = {id(n) for n in root.walk()}
        params, new = {}, {}
        for i, node in enumerate(self.nodes):
            for n in node.param_names:
                if node.has_param(n) and r.uniform() < b["frac"]:
                    v = r.uniform(-1, 1, node.get_param(n).shape).astype("f")
                    params[(node.id, n)] = v
                    if id(node) in sub:
                        new[f"{i}:{node.name}:{n}"] = v
            if not b["shims"]:
                continue
            for j, shim in enumerate(node.shims):
                if r.uniform() >= b["frac"]:
                    continue
                sd = shim._model.state_dict()
                seen = {}
                vals = {}
                for name, w in sd.items():
                    if w.data_ptr() in seen and w.numel():
                        vals[name] = vals[seen[w.data_ptr()]]
                    else:
                        if w.is_floating_point():
                            vals[name] = r.uniform(-1, 1, tuple(w.shape)).astype("f")
                        else:
                            vals[name] = r.randint(1, 1000, tuple(w.shape)) if w.ndim else numpy.asarray(r.randint(1, 1000))
                        seen[w.data_ptr()] = name
                if b.get("entry") == "badshape" and vals:
                    last = list(vals)[-1]
                    vals[last] = numpy.zeros((7, 9, 2), dtype="f")
                if b.get("entry") == "missing" and vals:
                    vals.pop(list(vals)[-1])
                for name, v in vals.items():
                    params[f"pytorch_{shim.id}_{name}"] = v
                if id(node) in sub:
                    for k in self.keys_of[i][1][j]:
                        new[k] = vals.get(k.split(":")[-1])
        if b["foreign"]:
            params[(10 ** 9, "W")] = numpy.zeros((2, 2), dtype="f")
            params["pytorch_1000000000_weight"] = numpy.zeros((2, 2), dtype="f")
            params["other"] = numpy.zeros((1,), dtype="f")
        return root, params, new

    def entry_faults(self, b):
        """Arm a failing call; returns a function that disarms and tells whether it fired."""
        import torch
        from thinc.backends._param_server import ParamServer
        kind = b.get("entry")
        state = {"n": 0, "fired": False}
        undo = []

        def arm(cls, name, after):
            real = getattr(cls, name)

            def fake(self_, *a, **k):
                state["n"] += 1
                if state["n"] == b["nth"]:
                    state["fired"] = True
                    if after:
                        real(self_, *a, **k)
                    raise make_exc(b["exc"])
                return real(self_, *a, **k)
            setattr(cls, name, fake)
            undo.append(lambda: setattr(cls, name, real))
        if kind == "set":
            arm(ParamServer, "set_param", False)
        elif kind == "get":
            arm(ParamServer, "get_param", False)
        elif kind in ("load_before", "load_after"):
            arm(torch.nn.Module, "load_state_dict", kind == "load_after")

        def disarm():
            while undo:
                undo.pop()()
            return state["fired"]
        return disarm

    # -- interpreter: a generator, suspended after every statement
    def body(self, stmts, where):
        for i, st in enumerate(stmts):
            w = f"{where}.{i}"
            if "kind" in st:
                try:
                    yield from self.block(st, w)
                except (core.Violation, core.HarnessError):
                    raise
                except GeneratorExit:
                    raise
                except BaseException as e:
                    self.look(f"after the block {w} ({st['kind']}) that raised {type(e).__name__}")
                    if not st["catch"]:
                        raise
                    self.run.probe("caught")
            elif st["s"] == "predict":
                self.predict(w)
            elif st["s"] == "look":
                self.look(f"inside {w}")
            elif st["s"] == "raise":
                self.run.fault("raise_in_body:" + st["exc"])
                self.run.nontrivial = True
                raise make_exc(st["exc"])
            elif st["s"] == "instr":
                exc = make_exc(st["exc"])
                ra = instr.RaiseAt(st["n"], exc)
                try:
                    with ra:
                        self.model.predict(self.X)
                except type(exc):
                    self.run.fault("raise_at_instruction:" + st["exc"])
                    self.run.nontrivial = True
                    raise
                except RuntimeError as e:  # StopIteration inside a generator becomes RuntimeError
                    if not isinstance(e.__cause__, StopIteration):
                        raise
                    self.run.nontrivial = True
                    raise
            elif st["s"] == "set":
                if self.all_keys:
                    key = self.all_keys[st["i"] % len(self.all_keys)]
                    node = self.nodes[int(key.split(":")[0])]
                    v = zoo.npr(st["seed"]).uniform(-1, 1, self.cur[key].shape).astype("f")
                    node.set_param(key.split(":")[-1], v)
                    self.cur[key] = v.copy()
            elif st["s"] == "setops":
                from thinc.backends import set_current_ops
                set_current_ops(self.t.get_ops(st["name"]))
                self.ops = self.t.get_current_ops()
            self.run.log.add(w, st.get("kind", st.get("s")))
            yield

    def block(self, b, where):
        t = self.t
        kind = b["kind"]
        saved = (dict(self.cur), self.ops, self.operators, self.validation)
        bad = b.get("entry") == "bad"
        disarm = lambda: False  # noqa: E731
        undo = []
        given = None
        if kind == "params":
            node, params, new = self.override(b)
            given = {str(k): v.copy() for k, v in params.items()}
            cm = node.use_params(params)
        elif kind == "ops":
            cm = t.use_ops("no-such-backend" if bad else b["name"])
        elif kind == "operators":
            ops = {s: (lambda x, y, s=s: f"{s}{b['seed']}") for s in b["syms"]}
            cm = self.Model.define_operators(7 if bad else ops)
        elif kind == "validation":
            from thinc.util import data_validation
            cm = data_validation(b["on"])
        else:
            from thinc.util import make_tempfile
            cm = make_tempfile("bogus" if bad else b["mode"])
        entered = False
        how = "normal"
        try:
            if kind == "params":
                disarm = self.entry_faults(b)
            try:
                with cm as value:
                    if disarm():
                        raise core.HarnessError("entry fault was swallowed")
                    disarm = lambda: False  # noqa: E731
                    entered = True
                    if kind == "params":
                        if b.get("entry") in ("badshape", "missing") and any(v is None or (v.shape != self.cur[k].shape) for k, v in new.items()):
                            raise core.Violation("bad-override-accepted", f"{where}: use_params took a state dict that does not fit")
                        self.cur.update({k: v.copy() for k, v in new.items()})
                    elif kind == "ops":
                        self.ops = b["name"]
                    elif kind == "operators":
                        self.operators = {s: f"{s}{b['seed']}" for s in b["syms"]}
                    elif kind == "validation":
                        self.validation = b["on"]
                    else:
                        self.files.append(os.path.basename(value.name))
                        if b["mode"] == "w":
                            value.write("x" * 10)
                        if b.get("close_fails"):
                            self.fail_close(value)
                            self.run.fault("close_fails")
                    self.look(f"at the start of {where} ({kind})")
                    yield
                    yield from self.body(b["body"], where)
                    self.look(f"at the end of {where} ({kind})")
            except (core.Violation, core.HarnessError):
                raise
            except BaseException as e:
                how = type(e).__name__
                raise
        finally:
            if disarm():
                self.run.fault(f"entry_{b['entry']}:{b['exc']}")
                self.run.nontrivial = True
                how = "entry:" + how
            elif not entered:
                if b.get("entry") in ("bad", "badshape", "missing"):
                    self.run.fault(f"entry_{b['entry']}")
                    self.run.nontrivial = True
            # what the block must put back
            if kind == "params" and entered:
                for k in new:
                    self.cur[k] = saved[0][k]
                check(all(zoo.exact(v, given[str(k)]) is None for k, v in params.items()), "override-values-changed", where)
            elif kind == "ops":
                self.ops = saved[1]
            elif kind == "operators":
                self.operators = saved[2]
            elif kind == "validation":
                self.validation = saved[3]
            elif kind == "tempfile" and entered:
                self.files.pop()
            self.history.append((kind, how))
        self.look(f"after {where} ({kind})")

    def fail_close(self, f):
        real = f.file
        armed = [True]

        def close():
            real.close()
            if armed[0]:
                armed[0] = False
                raise OSError(28, "No space left on device")
        f.close = close
        self.run.nontrivial = True


def run(case, run):
    import thinc.api
    from thinc.backends import set_current_ops
    instr.enable()
    scratch = tempfile.mkdtemp(prefix="c01-")
    old_tmp = tempfile.tempdir
    base_ops = thinc.api.get_current_ops()
    try:
        set_current_ops(base_ops)  # settles the thread's mirror
        w = World(case, run, scratch)
        tempfile.tempdir = scratch
        own = w.model.to_bytes()
        first = {k: v.copy() for k, v in w.cur.items()}
        w.look("at the start")
        g = w.body(case["prog"], "p")
        stop = case.get("stop")
        n = 0
        while True:
            n += 1
            try:
                if stop and n == stop["at"]:
                    run.nontrivial = True
                    if stop["how"] == "close":
                        run.fault("coroutine_closed")
                        g.close()
                        break
                    run.fault("coroutine_cancelled:" + stop["exc"])
                    g.throw(make_exc(stop["exc"]))
                else:
                    next(g)
            except StopIteration:
                break
            except (core.Violation, core.HarnessError):
                raise
            except BaseException as e:
                if core.from_thinc(e) and not isinstance(e, (OSError, RuntimeError, ValueError, TypeError)) and not injected(e):
                    raise
                break
        # a closed coroutine has left all its blocks
        w.files = []
        w.validation, w.operators = False, {}
        w.look("at the end")
        w.predict("at the end")
        if zoo.exact(w.cur, first) is None and not zoo.has_torch(case["m"]["spec"]):
            check(w.model.to_bytes() == own, "bytes-changed", "the model serialises differently after all blocks have ended")
        run.measure.add(core.fp(tuple(w.history)))
    finally:
        set_current_ops(base_ops)
        tempfile.tempdir = old_tmp
        shutil.rmtree(scratch, ignore_errors=True)


def injected(e):
    return isinstance(e, (core.InjectedFault, KeyboardInterrupt, MemoryError, asyncio.CancelledError, StopIteration, SystemExit))


def shrink(case):
    if case.get("stop"):
        yield {k: v for k, v in case.items() if k != "stop"}
        if case["stop"]["at"] > 1:
            yield {**case, "stop": {**case["stop"], "at": case["stop"]["at"] - 1}}
    for p in shrink_body(case["prog"]):
        yield {**case, "prog": p}
    yield from C.shrink_model(case)


def shrink_body(stmts):
    yield from core.shrink_list(stmts)
    for i, st in enumerate(stmts):
        if "kind" not in st:
            continue
        yield stmts[:i] + st["body"] + stmts[i + 1:]
        for b in shrink_body(st["body"]):
            yield stmts[:i] + [{**st, "body": b}] + stmts[i + 1:]
        for k in ("entry", "close_fails"):
            if st.get(k):
                yield stmts[:i] + [{a: v for a, v in st.items() if a != k}] + stmts[i + 1:]
