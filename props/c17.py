"""C17: overflowing mixed-precision steps are skipped and adapt the loss scale.

A real model with one or two wrapped PyTorch modules and real gradient scalers goes through a seeded sequence of batches,
updates, predictions and copies; overflows are injected into seeded parameter or input gradients or caused by large
output gradients.  Oracle: the same model without scaling, whose wrapped modules are told which batches overflow, and a
small model of the scale."""
import numpy

from sim import core, zoo
from sim.core import check

from . import common as C

META = {
    "runs": {"quick": 5000, "thorough": 150000},
    "rule": "seeded composition, scaler settings and 3-40 batches, updates, predictions and copies with injected overflows, or "
            "2-30 direct calls of a scaler; non-trivial when a step overflowed and another did not",
    "measure": "distinct (composition, settings, event sequence) tuples",
    "real": C.REAL + ["PyTorchGradScaler, including torch's scale update kernels (CPU)"],
    "stub": ["the check that tensors live on a GPU (scaling itself runs on the CPU)", "gradients that overflow on demand"],
    "assumptions": ["CPU kernels of torch stand in for the CUDA kernels", "autocast is inactive on the CPU"],
}

COMPS = ["plain", "plain", "chain", "chain", "residual", "concat", "add", "add2", "shared", "two", "array", "clone"]


def gen(r, tier):
    s = {"enabled": r.random() < 0.93, "init": 2.0 ** r.choice([0, 2, 8, 16, 16, 30]), "backoff": r.choice([0.5, 0.5, 0.25, 0.9]),
         "growth": r.choice([2.0, 2.0, 4.0, 1.5]), "interval": r.choice([1, 2, 3, 5, 2000])}
    seed = r.randrange(2 ** 30)
    if r.random() < 0.2:
        ev = []
        for _ in range(r.choice([2, 8, 30])):
            ev.append([r.choice(["scale", "scale_in", "scale_list", "unscale", "unscale_inf", "update", "update"]), r.randrange(1000)])
        return {"kind": "direct", "s": s, "seed": seed, "events": ev}
    ev = []
    p_inf = r.choice([0.0, 0.1, 0.3, 0.6])
    for _ in range(r.choice([3, 8, 16, 40])):
        x = r.random()
        if x < 0.55:
            inj = []
            while r.random() < p_inf and len(inj) < 3:
                inj.append([r.randrange(2), r.randrange(2), r.choice(["p", "p", "p", "x"]), r.randrange(8), r.choice(["inf", "-inf", "nan"])])
            ev.append(["batch", r.randrange(1000), r.choice([1, 1, 1, 1, 1e-3, 1e-6]) if r.random() > p_inf / 4 else r.choice([1e36, 3e38]), inj])
        elif x < 0.88:
            ev.append(["finish"])
        elif x < 0.94:
            ev.append(["predict", r.randrange(1000)])
        elif x < 0.97:
            ev.append(["copy"])
        else:
            ev.append(["pending", r.randrange(1000)])
    return {"kind": "model", "s": s, "seed": seed, "comp": r.choice(COMPS), "arch": r.choice(["linear", "mlp", "tied"]), "n": r.choice([1, 2, 4]),
            "ints": False, "opt": C.gen_opt(r), "events": ev}


def describe(case):
    return {k: v for k, v in case.items() if k != "seed"}


# ------------------------------------------------------------------ the pieces

scaler, setup = zoo.cpu_scaler, zoo.amp_on_cpu


class RefScale:
    """What the documentation says about the scale."""

    def __init__(self, s):
        self.s, self.scale, self.clean, self.inf = s, numpy.float32(s["init"]), 0, False

    def update(self):
        if not self.s["enabled"]:
            return
        if self.inf:
            self.scale = numpy.float32(self.scale * numpy.float32(self.s["backoff"]))
            self.clean = 0
        else:
            self.clean += 1
            if self.clean == self.s["interval"]:
                with numpy.errstate(over="ignore"):
                    new = numpy.float32(self.scale * numpy.float32(self.s["growth"]))
                if numpy.isfinite(new):
                    self.scale = new
                self.clean = 0
        self.inf = False


class Wrapped:
    """Bookkeeping of one wrapped module: the calls of the current batch and what to inject into them."""

    def __init__(self, case):
        self.ref = RefScale(case["s"])
        self.plan = {}
        self.last = {}


TAPS = {}


def module(case, w, seed):
    import torch
    from torch import nn
    torch.manual_seed(seed % 2 ** 31)
    n = case["n"]
    if case["arch"] == "linear":
        inner = nn.Linear(n, n)
    elif case["arch"] == "mlp":
        inner = nn.Sequential(nn.Linear(n, n + 1), nn.Tanh(), nn.Linear(n + 1, n))
    else:
        class Tied(nn.Module):
            def __init__(self):
                super().__init__()
                self.a = nn.Linear(n, n)

            def forward(self, x):
                return self.a(torch.tanh(self.a(x)))
        inner = Tied()

    class Tap(nn.Module):
        """Injects overflows into the gradient of its input."""

        def __init__(self):
            super().__init__()
            self.inner = inner

        def forward(self, x):
            y = self.inner(x)
            if x.requires_grad and torch.is_grad_enabled() and w in TAPS:
                TAPS[w](x, y, self)
            return y
    return Tap()


def make(case, wraps, scaled):
    """The composition; `scaled` with scalers, otherwise the reference."""
    import thinc.api as t
    from thinc.model import Model

    def wrapped(w):
        mod = module(case, w, case["seed"] + w)
        if scaled:
            return [t.PyTorchWrapper_v2, t.PyTorchWrapper_v3][case["seed"] % 2](mod, mixed_precision=True, grad_scaler=scaler(case["s"]))
        inner = t.PyTorchWrapper(mod)

        def forward(model, X, is_train):
            Y, bp = inner(X, is_train)
            call = wraps[w].calls = getattr(wraps[w], "calls", -1) + 1

            def backprop(dY):
                st = wraps[w]
                inj = st.plan.get(call, [])
                with numpy.errstate(over="ignore", invalid="ignore"):
                    natural = not numpy.isfinite(dY * st.ref.scale).all()
                if case["s"]["enabled"] and (inj or natural):
                    st.ref.inf = True
                if st.ref.inf:
                    return numpy.zeros_like(X)
                return bp(dY)
            return Y, backprop
        return Model("ref", forward, layers=[inner], dims={"nI": None, "nO": None})
    n, comp = case["n"], case["comp"]
    W = wrapped(0)
    lin = lambda: t.Linear(n, n)
    if comp == "plain":
        return W
    if comp == "chain":
        return t.chain(lin(), W, lin())
    if comp == "residual":
        return t.chain(lin(), t.residual(W))
    if comp == "concat":
        return t.chain(t.concatenate(W, lin()), t.Linear(n, 2 * n))
    if comp == "add":
        return t.add(lin(), W)
    if comp == "add2":
        return t.add(W, wrapped(1))
    if comp == "shared":
        return t.chain(W, lin(), W)
    if comp == "two":
        return t.chain(W, wrapped(1))
    if comp == "array":
        return t.with_array2d(W)
    if comp == "clone":
        return t.chain(t.residual(W), t.residual(wrapped(1)))


def prepare(case, model):
    X = numpy.random.RandomState(1).uniform(-1, 1, (2, case["n"])).astype("f")
    for node in model.walk():
        if node.has_dim("nO") is None and (node.shims or node.name == "ref"):
            node.set_dim("nO", case["n"])
    model.initialize(X=X, Y=X if case["comp"] != "concat" else None)
    r = numpy.random.RandomState(case["seed"] % 2 ** 31)
    for node in model.walk():
        for p in node.param_names:
            node.set_param(p, r.uniform(-0.7, 0.7, node.get_param(p).shape).astype("f"))
    return model


def shims(model):
    return [s for n in model.walk() for s in n.shims]


def values(model):
    """Parameters and gradients in an order that the scaled and the reference model share."""
    out = []
    for node in model.walk():
        for p in sorted(node.param_names):
            out.append((f"{node.name}.{p}", node.get_param(p).copy()))
            out.append((f"{node.name}.d{p}", node.get_grad(p).copy() if node.has_grad(p) else numpy.zeros_like(node.get_param(p))))
    out.sort(key=lambda x: x[0])
    for i, s in enumerate(shims(model)):
        for name, p in s._model.named_parameters():
            out.append((f"module{i}.{name}", p.detach().numpy().copy()))
            g = p.grad
            out.append((f"module{i}.d{name}", numpy.zeros(tuple(p.shape), "f") if g is None else g.detach().numpy().copy()))
    return out


def run(case, run):
    if case["kind"] == "direct":
        return direct(case, run)
    import torch
    import thinc.api as t
    TAPS.clear()
    s = case["s"]
    model = prepare(case, make(case, None, True))
    wraps = [Wrapped(case), Wrapped(case)]
    ref = prepare(case, make(case, wraps, False))
    opt, ropt = C.build_opt(case["opt"]), C.build_opt(case["opt"])
    n = case["n"]
    steps = {True: 0, False: 0}
    nw = len(shims(model))

    def same(a, b, cls, what):
        d = zoo.diff(b, a, 1e-3, 1e-5)
        check(d is None, cls, lambda: f"{what}: {d}")

    def scales(what):
        for w in range(nw):
            sc = shims(model)[w]._grad_scaler
            a, b = float(sc._scale), float(wraps[w].ref.scale)
            check(abs(a - b) <= 1e-5 * b, "wrong-scale", lambda: f"{what}: module {w} has scale {a}, expected {b}")
            if s["enabled"]:
                check(bool(sc.found_inf) == wraps[w].ref.inf, "wrong-overflow-flag", lambda: f"{what}: module {w}: {sc.found_inf}")

    def finish(what):
        skipped = []
        for w in range(nw):
            if wraps[w].ref.inf:
                steps[True] += 1
                for p, q in zip(shims(ref)[w]._model.parameters(), shims(model)[w]._model.parameters()):
                    if q.grad is not None:
                        skipped.append(p)
                    p.grad = None
            else:
                steps[False] += 1
        model.finish_update(opt)
        ref.finish_update(ropt)
        for p in skipped:  # a later update without a batch sees a zero gradient
            p.grad = torch.zeros_like(p)
        opt.step_schedules()
        ropt.step_schedules()
        for w in range(nw):
            wraps[w].ref.update()
        for name, v in values(model):
            if ".d" in name and "." in name and name.split(".")[1].startswith("d"):
                check(not v.any(), "gradient-left", lambda: f"{what}: {name}")
        same(pure(values(ref)), pure(values(model)), "wrong-weights", what)
        scales(what)

    def pure(vals):
        return [v for k, v in vals if not k.split(".", 1)[1].startswith("d")]

    waiting = []
    for j, ev in enumerate(case["events"]):
        what = f"event {j} {ev[0]}"
        if ev[0] in ("batch", "pending"):
            r = numpy.random.RandomState((case["seed"] + ev[1]) % 2 ** 31)
            X = r.uniform(-1, 1, (int(r.choice([1, 2, 3])), n)).astype("f")
            mag, inj = (ev[2], ev[3]) if ev[0] == "batch" else (1, [])
            if not s["enabled"]:
                mag, inj = 1, []
            certain = all(float(x.ref.scale) * mag * 0.4 > 3.5e38 for x in wraps[:nw])
            if mag > 1 and (not certain or case["comp"] not in ("plain", "array", "two", "add2")):
                mag = 1  # it may or may not overflow, or reaches layers that are not scaled
            plan = {}
            for w, c, how, k, val in inj:
                w %= nw
                c = c % 2 if case["comp"] == "shared" else 0
                plan.setdefault((w, c), []).append((how, k, val))
            taps(plan, nw)
            for w in range(nw):
                wraps[w].calls = -1
                wraps[w].plan = {c: v for (w2, c), v in plan.items() if w2 == w}
            Y, bp = model.begin_update(X)
            TAPS.clear()
            Yr, bpr = ref.begin_update(X)
            same(Yr, Y, "output-differs", what)
            dY = (r.uniform(0.5, 1, Y.shape) * r.choice([-1, 1], Y.shape) * mag).astype("f")
            item = (X, X.copy(), bp, bpr, dY, {w: wraps[w].plan for w in range(nw)})
            if ev[0] == "pending":
                waiting.append(item)
                continue
            back(item, wraps, nw, run, same, what, s)
            if inj:
                run.fault("overflow", len(inj))
            if mag > 1e30:
                run.fault("large-gradient")
            scales(what)
            if not any(x.ref.inf for x in wraps[:nw]):
                same([v for _, v in values(ref)], [v for _, v in values(model)], "wrong-gradient", what)
        elif ev[0] == "finish":
            if waiting and len(waiting) % 2:
                back(waiting.pop(0), wraps, nw, run, same, what, s)
            finish(what)
        elif ev[0] == "predict":
            X = numpy.random.RandomState(ev[1]).uniform(-1, 1, (2, n)).astype("f")
            same(ref.predict(X), model.predict(X), "prediction-differs", what)
        elif ev[0] == "copy":
            waiting.clear()
            # optimizer state is per id: both sides go on with a fresh optimizer
            model = model.copy()
            opt, ropt = C.build_opt(case["opt"]), C.build_opt(case["opt"])
            scales(what)
        run.steps += 1
        run.log.add(ev)
    finish("final update")
    run.nontrivial = steps[True] > 0 and steps[False] > 0
    run.measure.add(core.derive(case["comp"], core.canon(s), core.canon(case["events"])))


def back(item, wraps, nw, run, same, what, s):
    X, Xc, bp, bpr, dY, plans = item
    for w in range(nw):
        wraps[w].plan = plans[w]
    keep = dY.copy()
    import warnings
    with numpy.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        dX = bp(dY)
        check(numpy.array_equal(dY, keep), "output-gradient-changed", lambda: f"{what}: the caller's output gradient was changed in place")
        check(numpy.array_equal(X, Xc), "input-changed", what)
        dXr = bpr(keep)
    same(dXr, dX, "wrong-input-gradient", what)


def taps(plan, nw):
    """Make the planned gradients of the wrapped modules overflow in the backward passes of the coming forward pass."""
    count = {}

    def tap(w):
        def on_call(x, y, mod):
            c = count[w] = count.get(w, -1) + 1
            for how, k, val in plan.get((w, c), []):
                def bad(g, k=k, val=val):
                    g = g.clone()
                    g.view(-1)[k % g.numel()] = float(val)
                    return g
                if how == "x":
                    x.register_hook(bad)
                    continue
                ps = list(mod.parameters())
                p = ps[k % len(ps)]

                def arm(g, p=p, bad=bad):  # the backward pass of this call begins
                    h = []

                    def once(g):
                        h[0].remove()
                        return bad(g)
                    h.append(p.register_hook(once))
                y.register_hook(arm)
        return on_call
    for w in range(nw):
        TAPS[w] = tap(w)


def direct(case, run):
    import torch
    s = case["s"]
    sc, ref = scaler(s), RefScale(s)
    kinds = set()
    for j, (op, x) in enumerate(case["events"]):
        what = f"event {j} {op}"
        r = numpy.random.RandomState(x)
        vals = [r.uniform(-1, 1, int(r.choice([1, 3]))).astype("f") for _ in range(3)]
        ts = [torch.tensor(v) for v in vals]
        k = ref.scale if s["enabled"] else numpy.float32(1)
        if op in ("scale", "scale_in"):
            out = sc.scale(ts[0], inplace=op == "scale_in")
            C.eq(out.numpy(), vals[0] * k, "wrong-scaling", what)
            if op == "scale" or not s["enabled"]:
                C.eq(ts[0].numpy(), vals[0], "argument-changed", what, exact=True)
            else:
                C.eq(ts[0].numpy(), vals[0] * k, "wrong-scaling", what)
        elif op == "scale_list":
            out = sc.scale(tuple(ts) if x % 2 else ts)
            C.eq([o.numpy() for o in out], [v * k for v in vals], "wrong-scaling", what)
            C.eq([o.numpy() for o in ts], vals, "argument-changed", what, exact=True)
        elif op.startswith("unscale"):
            if op == "unscale_inf":
                vals[x % 3][0] = [numpy.inf, -numpy.inf, numpy.nan][x % 7 % 3]
                ts = [torch.tensor(v) for v in vals]
                if s["enabled"]:
                    ref.inf = True
                run.fault("overflow")
            got = sc.unscale(ts)
            check(bool(got) == ref.inf, "wrong-overflow-flag", f"{what}: {got}")
            if not ref.inf:
                C.eq([o.numpy() for o in ts], [v / k for v in vals], "wrong-scaling", what)
        else:
            kinds.add(ref.inf)
            sc.update()
            ref.update()
        check(abs(float(sc._scale) - float(ref.scale)) <= 1e-5 * float(ref.scale), "wrong-scale",
              lambda: f"{what}: {float(sc._scale)} instead of {ref.scale}")
        check(bool(sc.found_inf) == ref.inf, "wrong-overflow-flag", what)
        run.steps += 1
        run.log.add(op, x)
    run.nontrivial = len(kinds) > 1
    run.measure.add(core.derive("direct", core.canon(s), core.canon(case["events"])))


def shrink(case):
    for xs in core.shrink_list(case["events"], 1):
        yield {**case, "events": xs}
    for i, e in enumerate(case["events"]):
        if e[0] == "batch":
            for inj in core.shrink_list(e[3]):
                yield {**case, "events": case["events"][:i] + [[e[0], e[1], e[2], inj]] + case["events"][i + 1:]}
    if case["kind"] == "model" and case["comp"] != "plain":
        yield {**case, "comp": "plain"}
