"""C15: seeded programs are reproducible.

The same seeded program (or single array operation) runs three times: plainly; in the same process after a different
program, with every uninitialised array filled with garbage; and in a second process with another hash seed, another
allocator fill pattern and another history.  Oracle: all three give the same results."""
import random

import numpy

from sim import core, zoo
from sim.core import check

from . import common as C

META = {
    "runs": {"quick": 6000, "thorough": 400000},
    "rule": "seeded program (build, initialise, train, shuffle, evaluate, serialise) or 1-6 seeded array operations under three "
            "memory contents, histories and hash seeds; non-trivial when garbage was actually handed out or a model trained",
    "measure": "distinct programs",
    "real": C.REAL,
    "stub": ["numpy.empty / empty_like (real, filled with garbage)", "malloc fill pattern and hash seed of the second process"],
    "assumptions": ["results are compared within rounding, since alignment may change the order of summation",
                    "placeholder gradients of integer inputs are not results"],
}


# ------------------------------------------------------------------ seams

class Poison:
    """Uninitialised arrays hold garbage."""

    def __init__(self, seed, run=None):
        self.r = numpy.random.RandomState(seed % 2 ** 31)
        self.n = 0

    def fill(self, a):
        self.n += 1
        if a.size and a.flags.writeable:
            if a.dtype.kind == "f":
                a.fill([numpy.nan, 1e30, -7.5, numpy.inf][self.r.randint(4)])
            elif a.dtype.kind in "iu":
                a.fill([77, 2 ** 7 - 1, 1][self.r.randint(3)])
            elif a.dtype.kind == "b":
                a.fill(True)
        return a

    def __enter__(self):
        self.empty, self.like = numpy.empty, numpy.empty_like
        numpy.empty = lambda *a, **k: self.fill(self.empty(*a, **k))
        numpy.empty_like = lambda *a, **k: self.fill(self.like(*a, **k))
        return self

    def __exit__(self, *exc):
        numpy.empty, numpy.empty_like = self.empty, self.like
        return False


# ------------------------------------------------------------------ programs

def gen(r, tier):
    seed = r.randrange(2 ** 30)
    case = {"seed": seed, "poison": r.randrange(10 ** 6), "history": r.randrange(4)}
    if r.random() < 0.4:
        case.update(kind="ops", ops=r.choice(["numpy", "numpy", "vanilla"]),
                    calls=[[r.choice(OPS), r.randrange(10 ** 6)] for _ in range(r.randint(1, 6))])
    elif r.random() < 0.2:
        case.update(kind="layout", m=zoo.gen(r, {"depth": r.choice([1, 1, 2]), "torch_rand": r.random() < 0.2}), layout=r.randrange(10 ** 6),
                    steps=[r.choice(["X", "dY", "X", "dY", "both", "predict"]) for _ in range(r.choice([1, 2, 3]))])
    else:
        steps = [r.choice(["train", "train", "train", "step", "step", "predict", "bytes", "shuffle", "multi", "rand", "copy", "load",
                           "eval", "averages"]) for _ in range(r.choice([2, 4, 8]))]
        case.update(kind="program", m=zoo.gen(r, {"depth": r.choice([1, 2, 3]), "torch_rand": r.random() < 0.3, "premap": True}),
                    steps=steps, opt=C.gen_opt(r), reseed=r.random() < 0.3)
    return case


def describe(case):
    if case["kind"] == "ops":
        return {"ops": [n for n, _ in case["calls"]], "backend": case["ops"]}
    if case["kind"] == "layout":
        return {"model": C.describe_model(case["m"]), "laid out": case["steps"]}
    return {"model": C.describe_model(case["m"]), "steps": case["steps"], "optimizer": case["opt"]["kind"]}


def program(case):
    """The user's program: everything it does follows from the fixed seed."""
    import thinc.api as t
    import torch
    m, seed = case["m"], case["seed"]
    out = []
    t.fix_random_seed(seed)
    with zoo.backend(m.get("ops")):
        model = zoo.build(m["spec"])
    model.initialize(X=zoo.batch(m, seed + 1, 3))
    out.append(("initial", zoo.params(model)))
    opt = C.build_opt({**case["opt"], "eps": 0.01})  # keeps rounding from being amplified
    ops = t.get_current_ops()
    for j, s in enumerate(case["steps"]):
        if case["reseed"]:
            t.fix_random_seed(seed + j)
        if s == "train":
            Y, dX = C.train_step(model, m, seed + 10 * j, 3)
            out.append((f"{j} output", [v for _, v in zoo.flat(Y)]))
            if not C.ints_in(m):
                out.append((f"{j} gradient", [v for _, v in zoo.flat(dX)]))
            out.append((f"{j} gradients", zoo.grads(model)))
        elif s == "step":
            model.finish_update(opt)
            opt.step_schedules()
            out.append((f"{j} params", zoo.params(model)))
        elif s == "predict":
            out.append((f"{j} predict", [v for _, v in zoo.flat(model.predict(zoo.batch(m, seed + j, 2)))]))
        elif s == "eval":
            out.append((f"{j} eval", [v for _, v in zoo.flat(model(zoo.batch(m, seed + j, 3), is_train=False)[0])]))
        elif s == "bytes":
            import srsly
            d = srsly.msgpack_loads(model.to_bytes())
            d.pop("shims", None)  # torch's file format is not byte-stable; its content is compared as parameters
            out.append((f"{j} bytes", plain(d)))
        elif s == "shuffle":
            n = 5 + j
            out.append((f"{j} shuffle", [list(b) for b in ops.minibatch(2, list(range(n)), shuffle=True, buffer=j % 3 + 1)]))
        elif s == "multi":
            n = 5 + j
            X = numpy.arange(2 * n).reshape(n, 2)
            out.append((f"{j} multibatch", [[list(map(int, a)), b.tolist()] for a, b in
                                            ops.multibatch(t.compounding(1, 4, 1.5).to_generator(), list(range(n)), X, shuffle=True)]))
        elif s == "rand":
            out.append((f"{j} rand", [random.random(), float(numpy.random.rand()), float(torch.rand(1))]))
        elif s == "copy":
            with zoo.backend(m.get("ops")):
                if "premap" not in core.canon(m):
                    model = model.copy()
        elif s == "load":
            with zoo.backend(m.get("ops")):
                other = zoo.build(m["spec"])
            other.initialize(X=zoo.batch(m, seed + 1, 3))
            if len(list(other.walk())) == len(list(model.walk())):
                other.from_bytes(model.to_bytes())
                model = other
                opt = C.build_opt({**case["opt"], "eps": 0.01})
        elif s == "averages":
            if opt.averages:
                with model.use_params(opt.averages):
                    out.append((f"{j} averages", [v for _, v in zoo.flat(model.predict(zoo.batch(m, seed + j, 2)))]))
    out.append(("final", zoo.params(model)))
    out.append(("rng", [random.random(), float(numpy.random.rand()), float(torch.rand(1))]))
    return out


def plain(v):
    if isinstance(v, dict):
        items = {str(k): plain(x) for k, x in v.items() if k not in ("id",)}
        return {"order": list(items), "items": items}  # the order is part of the serialised form
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


# ------------------------------------------------------------------ single operations

def arr(r, *shape, dt="f"):
    return numpy.ascontiguousarray(r.uniform(-2, 2, shape).astype(dt))


def lens(r, zero=True):
    k = int(r.randint(0, 4))
    return numpy.asarray([int(r.choice([0, 1, 2, 3] if zero else [1, 2, 3])) for _ in range(k)], dtype="i")


def seqs(r, w=3):
    return [arr(r, int(r.choice([0, 1, 2, 4])), w) for _ in range(int(r.randint(1, 4)))]


ACT = ["relu", "mish", "gelu", "gelu_approx", "swish", "hard_swish", "hard_swish_mobilenet", "dish", "relu_k", "hard_sigmoid", "hard_tanh",
       "clipped_linear", "sigmoid"]
OPS = (["act"] * 6 + ["maxout", "softmax", "softmax_seq", "seq2col", "seq2col", "reduce", "reduce", "reduce", "flatten", "flatten", "pad", "pad",
       "list2padded", "list2padded", "gemm", "affine", "gather_add", "scatter_add", "hash", "ngrams", "adam", "clip", "position", "dropout",
       "averages", "lstm", "tile", "insert", "init", "init", "loss", "loss", "alloc", "ragged", "strings", "padded_idx"])


def one(ops, name, seed):
    """One array operation on seeded operands; a list of results."""
    import thinc.api as t
    r = numpy.random.RandomState(seed)
    numpy.random.seed(seed)
    n, w = int(r.choice([0, 1, 2, 5])), int(r.choice([1, 2, 3, 7]))
    dt = r.choice(["f", "f", "d"])
    inp = bool(r.randint(2))
    X = arr(r, n, w, dt=dt)
    dY = arr(r, n, w, dt=dt)
    if name == "act":
        a = ACT[r.randint(len(ACT))]
        f, b = getattr(ops, a), getattr(ops, "backprop_" + a)
        Y = f(X.copy(), inplace=inp)
        if a == "swish":
            args = (dY.copy(), X, Y)
        elif a in ("relu", "sigmoid"):
            args = (dY.copy(), Y)
        else:
            args = (dY.copy(), X)
        return [Y, b(*args, inplace=inp)]
    if name == "maxout":
        P = int(r.choice([1, 2, 3]))
        Y, which = ops.maxout(arr(r, n, w, P, dt=dt))
        return [Y, which, ops.backprop_maxout(dY, which, P)]
    if name == "softmax":
        Y = ops.softmax(X.copy(), inplace=inp)
        return [Y, ops.backprop_softmax(Y, dY)]
    if name == "softmax_seq":
        L = lens(r, False)
        X = arr(r, int(L.sum()), w)
        Y = ops.softmax_sequences(X, L)
        return [Y, ops.backprop_softmax_sequences(arr(r, *X.shape), Y, L)]
    if name == "seq2col":
        nW = 1
        L = lens(r)
        X = arr(r, int(L.sum()), w, dt=dt)
        kw = {"lengths": L} if r.randint(2) and len(L) else {}
        Y = ops.seq2col(X, nW, **kw)
        return [Y, ops.backprop_seq2col(arr(r, *Y.shape, dt=dt), nW, **kw)]
    if name == "reduce":
        k = ["sum", "mean", "max", "first", "last"][r.randint(5)]
        L = lens(r, k in ("sum", "mean"))
        X = arr(r, int(L.sum()), w, dt=dt)
        Y = getattr(ops, "reduce_" + k)(X, L)
        b = getattr(ops, "backprop_reduce_" + k)
        d = arr(r, len(L), w, dt=dt)
        if k in ("sum", "mean"):
            return [Y, b(d, L)]
        if k == "max":
            return [*Y, b(d, Y[1], L)]
        return [*Y, b(d, Y[1])]
    if name == "flatten":
        xs, p = seqs(r, w), int(r.choice([0, 0, 1, 2]))
        Y = ops.flatten(xs, pad=p)
        return [Y, ops.unflatten(Y, numpy.asarray([len(x) for x in xs], "i"), pad=p)]
    if name == "pad":
        xs = seqs(r, w)
        if r.randint(2):
            xs = [(x * 10).astype("i") for x in xs]
        Y = ops.pad(xs, round_to=int(r.choice([1, 2, 4])))
        return [Y, ops.unpad(Y, [len(x) for x in xs])]
    if name in ("list2padded", "padded_idx"):
        xs = seqs(r, w)
        P = ops.list2padded(xs)
        return [P, ops.padded2list(P)]
    if name == "gemm":
        k = int(r.choice([1, 3]))
        t1, t2 = bool(r.randint(2)), bool(r.randint(2))
        A = arr(r, k, n, dt=dt) if t1 else arr(r, n, k, dt=dt)
        B = arr(r, w, k, dt=dt) if t2 else arr(r, k, w, dt=dt)
        return [ops.gemm(A, B, trans1=t1, trans2=t2)]
    if name == "affine":
        return [ops.affine(arr(r, n, 3), arr(r, w, 3), arr(r, w))]
    if name == "gather_add":
        return [ops.gather_add(arr(r, 6, w), r.randint(0, 6, (n, 3)).astype("i"))]
    if name == "scatter_add":
        T = arr(r, 6, w)
        ops.scatter_add(T, r.randint(0, 6, n).astype("i"), arr(r, n, w))
        return [T]
    if name == "hash":
        return [ops.hash(r.randint(0, 99, n).astype("uint64"), int(r.randint(1, 9)))]
    if name == "ngrams":
        return [ops.ngrams(int(r.randint(1, 4)), r.randint(0, 99, n).astype("uint64"))]
    if name == "adam":
        a = [arr(r, 5) for _ in range(4)]
        a[3] = abs(a[3])
        return list(ops.adam(*a, 0.9, 0.99, 1e-3, 0.1, 1.0))
    if name == "clip":
        return [ops.clip_gradient(arr(r, w), 0.5)]
    if name == "position":
        return [ops.position_encode(n + 1, 2 * w)]
    if name == "dropout":
        return [ops.get_dropout_mask((n, w), [0.0, 0.3, 1.0, None][r.randint(4)]) if r.randint(2) else ops.get_dropout_mask((w,), 0.5)]
    if name == "averages":
        e = arr(r, w)
        ops.update_averages(e, arr(r, w), int(r.randint(1, 30)))
        return [e]
    if name == "lstm":
        nI, nO, dirs, depth = int(r.randint(1, 3)), int(r.randint(1, 3)), int(r.choice([1, 2])), int(r.choice([1, 2]))
        size, width = 0, nI
        for _ in range(depth):
            size += dirs * (4 * nO * width + 4 * nO + 4 * nO * nO + 4 * nO)
            width = nO * dirs
        L = numpy.asarray(sorted([int(r.randint(1, 4)) for _ in range(3)], reverse=True), "i")
        Z = numpy.zeros((depth, dirs, nO), "f")
        P = arr(r, size)
        # lengths per time step
        B = numpy.asarray([int((L > k).sum()) for k in range(int(L[0]))], "i")
        X = arr(r, int(B.sum()), nI)
        if "lstm" in type(ops).__name__:
            return []
        Y, st = ops.lstm_forward_training(P, Z, Z, X, B)
        Y2 = ops.lstm_forward_inference(P, Z, Z, X, B)
        return [Y, Y2, list(ops.backprop_lstm(arr(r, *Y.shape), B, P, st))]
    if name == "tile":
        return [ops.tile(X, 2)]
    if name == "insert":
        return [ops.insert_into((n + 1, w + 1), [X])] if 0 else [X]
    if name == "init":
        f = [t.glorot_uniform_init, t.normal_init, t.uniform_init, t.zero_init][r.randint(4)]
        return [f(ops, (n + 1, w))]
    if name == "loss":
        k = r.randint(5)
        Y, Z = arr(r, n + 1, w), arr(r, n + 1, w)
        if k == 0:
            c = t.CategoricalCrossentropy(normalize=bool(r.randint(2)))
            P = ops.softmax(Y)
            T = r.randint(0, w, n + 1).astype("i")
            return [c.get_grad(P, T), float(c.get_loss(P, T))]
        if k == 1:
            c = t.CategoricalCrossentropy(names=["a", "b", "c", "d", "e", "f", "g"][:w], missing_value="-", neg_prefix="!")
            P = ops.softmax(Y)
            T = [["a", "-", "!a"][r.randint(3)] for _ in range(n + 1)]
            return [c.get_grad(P, T), float(c.get_loss(P, T))]
        if k == 2:
            c = t.L2Distance(normalize=bool(r.randint(2)))
            return [c.get_grad(Y, Z), float(c.get_loss(Y, Z))]
        if k == 3:
            c = t.CosineDistance(normalize=bool(r.randint(2)), ignore_zeros=bool(r.randint(2)))
            Z[0] = 0
            return [c.get_grad(Y, Z), float(c.get_loss(Y, Z))]
        c = t.SequenceCategoricalCrossentropy(names=["a", "b", "c", "d", "e", "f", "g"][:w], missing_value="-")
        Ps = [ops.softmax(arr(r, q, w)) for q in (1, 2)]
        Ts = [[["a", "-"][r.randint(2)] for _ in range(q)] for q in (1, 2)]
        return [c.get_grad(Ps, Ts), float(c.get_loss(Ps, Ts))]
    if name == "alloc":
        return [ops.alloc2f(n, w), ops.alloc1i(n), ops.alloc((n, w), dtype="d"), ops.alloc3f(1, n, w), ops.alloc4i(1, n, w, 2)]
    if name == "ragged":
        L = lens(r)
        R = t.Ragged(arr(r, int(L.sum()), w), L)
        out = [R[i].data for i in range(len(L))]
        if len(L):
            out += [R[0:1].data, R[numpy.asarray([0], "i")].data]
        return out
    if name == "strings":
        m = t.strings2arrays()
        return [m.predict([["a", "bb"], ["c" * int(r.randint(1, 5))]])]


def single(case):
    import thinc.api as t
    from thinc.backends.ops import Ops
    ops = Ops(numpy) if case["ops"] == "vanilla" else t.NumpyOps()
    out = []
    for name, seed in case["calls"]:
        try:
            res = [[p, v] for p, v in zoo.flat(one(ops, name, seed))]
        except Exception as e:  # the same error every time, then
            res = [["error", type(e).__name__]]
        out.append((name, res))
    return out


def bulk(seed):
    """A long history: many distinct strings, ids, shapes and keys went through the library before."""
    import thinc.api as t
    r = core.rng("bulk", seed)
    ops = t.get_current_ops()
    n = r.choice([100, 600, 3000])
    state = numpy.random.get_state()
    strings = [f"s{seed}-{i}" for i in range(n)] + [c * k for c in "abcd" for k in range(1, 7)]
    r.shuffle(strings)
    t.strings2arrays().predict([strings[:n // 2], strings[n // 2:]])
    ops.hash(numpy.arange(n, dtype="uint64"), r.randrange(100))
    for k in range(1, 40):
        ops.position_encode(k, 2 + k % 5)
        ops.alloc2f(k, k % 7)
        ops.get_dropout_mask((k,), 0.5)
        ops.pad([numpy.ones((k, 2), "f"), numpy.ones((1, 2), "f")])
        ops.seq2col(numpy.ones((k, 2), "f"), 1)
    e = t.HashEmbed(2, 7)
    e.initialize()
    e.predict(numpy.arange(n, dtype="uint64"))
    p = t.premap_ids({i: i + 1 for i in range(n)})
    p.predict(numpy.arange(n, dtype="int64"))
    t.remap_ids({i: i + 1 for i in range(n)}).predict(list(range(n)))
    opt = t.Adam(0.01)
    for i in range(200):
        opt((i, "W"), numpy.ones(3, "f"), numpy.ones(3, "f"))
    c = t.CategoricalCrossentropy(names=["a", "b"])
    for i in range(70):
        c.get_grad(numpy.full((2, 2), 0.5, "f"), ["a", "b"])
    numpy.random.set_state(state)


def execute(case, poison=None, history=0):
    """Run the program of a case, after some other program; returns its results."""
    with numpy.errstate(all="ignore"):
        if history:
            try:
                r = core.rng("history", history)
                for _ in range(2):
                    h = gen(r, "quick")
                    program(h) if h["kind"] == "program" else single(h) if h["kind"] == "ops" else None
            except Exception:
                pass
            if history == 3 or case["seed"] % 10 == history:
                bulk(case["seed"] + history)
            keep = [numpy.full(k, 3.14159, "f") for k in (1, 2, 3, 4, 6, 8, 12, 16, 24, 64)]  # dirty, then freed
            del keep
        f = program if case["kind"] == "program" else single
        if poison is None:
            return f(case), 0
        with Poison(poison) as p:
            return f(case), p.n


_child = []
# under this hash seed small sets of the names that occur (W and b, nO and nI, ...) have another order than under seed 0
CHILD_ENV = {"PYTHONHASHSEED": "2371", "MALLOC_PERTURB_": "165"}


def child():
    from sim.child import Child
    if not _child:
        _child.append(Child(CHILD_ENV))
    return _child[0]


def layouts(case, run):
    """The same batches and gradients as views of larger arrays, in Fortran order, with strides: refused, or no difference."""
    m, seed = case["m"], case["seed"]
    r = core.rng("layout", case["layout"])
    a, b = zoo.initialized(m, seed), zoo.initialized(m, seed)
    guards = []
    import thinc.api as t

    def refused(e):
        run.probe("refused")
        return isinstance(e, (ValueError, BufferError))

    for j, s in enumerate(case["steps"]):
        X = zoo.batch(m, seed + 10 * j, r.choice([1, 2, 3]))
        X2 = zoo.relay(X, r, guards) if s != "dY" else X
        before = zoo.snapshot(X)
        if s == "predict":
            try:
                Y2 = b.predict(X2)
            except Exception as e:
                if refused(e):
                    return
                raise
            got = [("output", a.predict(X), Y2)]
        else:
            t.fix_random_seed(seed)
            Y, bp = a.begin_update(X)
            dY = zoo.grad_like(Y, seed + j)
            dX = bp(dY)
            try:
                t.fix_random_seed(seed)
                Y2, bp2 = b.begin_update(X2)
                dY2 = zoo.relay(dY, r, guards) if s != "X" else dY
                dX2 = bp2(dY2)
            except Exception as e:
                if refused(e):
                    return
                raise
            got = [("output", Y, Y2), ("parameter gradients", zoo.grads(a), zoo.grads(b))]
            if not C.ints_in(m):
                got.append(("input gradient", dX, dX2))
            d = zoo.exact(zoo.snapshot(dY2), zoo.snapshot(dY))
            check(d is None, "layout-operand-changed", lambda: f"step {j}: the output gradient changed: {d}")
        for what, x, y in got:
            d = zoo.close(x, y)
            check(d is None, "layout-differs", lambda: f"step {j}: {what} differs for arrays of another layout ({s}): {d}")
        d = zoo.exact(zoo.snapshot(X2), before)
        check(d is None, "layout-operand-changed", lambda: f"step {j}: the batch changed: {d}")
        check(not zoo.spilled(guards), "layout-operand-changed", lambda: f"step {j}: wrote beyond the arrays passed in")
        run.log.add(s)
        run.steps += 1
        run.nontrivial = True


def run(case, run):
    if case["kind"] == "layout":
        run.measure.add(core.derive(core.canon(case)))
        run.fault("layout")
        return layouts(case, run)
    a, _ = execute(case)
    b, filled = execute(case, case["poison"], case["history"])
    same(a, b, "not-reproducible", "with garbage in uninitialised memory and another history")
    run.fault("garbage-arrays", filled)
    try:
        status, res = child().call("c15", "execute", case, None, (case["seed"] % 3))
    except EOFError:
        _child.clear()
        raise core.Violation("process-died", "the second process died")
    check(status == "ok", "not-reproducible", lambda: f"in another process: {res}")
    same(a, res[0], "not-reproducible", "in a process with another hash seed, allocator and history")
    run.fault("other-process")
    run.nontrivial = filled > 0 or case["kind"] == "program"
    run.measure.add(core.derive(core.canon({k: v for k, v in case.items() if k not in ("poison", "history")})))
    run.steps += len(a)
    run.log.add([n for n, _ in a])


def same(a, b, cls, where):
    check([n for n, _ in a] == [n for n, _ in b], cls, lambda: f"{where}: {[n for n, _ in a]} vs {[n for n, _ in b]}")
    for (n, x), (_, y) in zip(a, b):
        d = zoo.diff(x, y, 1e-3, 1e-5)
        check(d is None, cls, lambda: f"{n} differs {where}: {d}")


def shrink(case):
    if case["history"]:
        yield {**case, "history": 0}
    if case["kind"] == "layout":
        yield from C.shrink_key_list(case, "steps", 1)
        yield from C.shrink_model(case)
    elif case["kind"] == "ops":
        yield from C.shrink_key_list(case, "calls", 1)
    else:
        yield from C.shrink_key_list(case, "steps", 0)
        yield from C.shrink_model(case)
