"""C18: array operations, losses and data containers are free of side effects.

Simulated caller threads (or one caller with failing calls) work on one pool of shared arrays, containers and loss
objects.  Oracle: what the same call on the same operands returns in a process that was forked for this one call and
has never done anything else; bit-exact snapshots of all operands and of every result handed out before."""
import numpy

from sim import core, instr, zoo
from sim.core import check

from . import common as C

META = {
    "runs": {"quick": 3000, "thorough": 60000},
    "rule": "seeded pool of shared operands (two value variants of equal shapes) and 2-14 seeded calls in 1-4 simulated threads, some "
            "failing at a seeded instruction and repeated, some in place on private arrays; non-trivial when at least two calls "
            "shared an operand",
    "measure": "distinct (sequence of calls, preemptions or failures) tuples",
    "real": ["thinc Ops, NumpyOps and its C kernels, losses, Ragged/Padded/Pairs, util", "numpy", "BLIS gemm"],
    "stub": ["thread scheduler", "exceptions raised at seeded instructions"],
    "assumptions": ["C kernels run atomically with respect to the other threads", "the fresh process runs on the same machine and libraries"],
}

EXC = ["mem", "kbd", "fault"]
ACT = ["relu", "mish", "gelu", "gelu_approx", "swish", "hard_swish", "hard_swish_mobilenet", "dish", "relu_k", "hard_sigmoid", "hard_tanh",
       "clipped_linear", "sigmoid"]
UN = ["erf", "sechsq", "dsigmoid", "dtanh", "softmax", "tile", "as_contig", "asarray", "reshape"]


def make_exc(kind):
    return {"fault": core.InjectedFault("injected"), "kbd": KeyboardInterrupt(), "mem": MemoryError("injected")}[kind]


# ------------------------------------------------------------------ operands

def arr(r, *shape, dt="f"):
    return numpy.ascontiguousarray(r.uniform(-2.5, 2.5, shape).astype(dt))


LAID = ["XL9", "Xt", "dYt", "H", "LSTM", "sizes", "X", "dY", "Z", "Y", "X3", "A", "B", "W", "b", "Xf", "XL", "XL1", "YL", "idx", "idx2", "T", "vals", "keys", "which", "m1", "m2", "g", "w1", "padlist",
        "P", "thot", "L", "L1"]
LAYOUTS = zoo.LAYOUTS + ["mixed"]


class Pool:
    """Shared operands; a pure function of the case."""

    def __init__(self, case, fill=77):
        import thinc.api as t
        from thinc.types import Pairs
        s = case["shape"]
        n, w, p, dt = s["n"], s["w"], s["p"], s["dt"]
        self.ops = t.NumpyOps() if case["ops"] == "numpy" else t.Ops(numpy) if hasattr(t, "Ops") and case["ops"] == "base" else zoo_ops(case["ops"])
        self.kinds, self.v = s, []
        lens, pos = s["lens"], [max(1, k) for k in s["lens"]]
        for k in range(2):
            r = numpy.random.RandomState((case["seed"] + 977 * k) % 2 ** 31)
            d = {}
            d["X"], d["dY"], d["Z"] = (arr(r, n, w, dt=dt) for _ in range(3))
            d["Y"] = 1 / (1 + numpy.exp(-d["X"])).astype(dt)
            d["X3"] = arr(r, n, w, p, dt=dt)
            d["which"] = r.randint(0, p, (n, w)).astype("i")
            d["A"], d["B"] = arr(r, n, p, dt=dt), arr(r, p, w, dt=dt)
            d["W"], d["b"] = arr(r, p, w), arr(r, p)
            d["Xf"] = arr(r, n, w)
            d["L"], d["L1"] = numpy.asarray(lens, "i"), numpy.asarray(pos, "i")
            d["XL"], d["XL1"] = arr(r, sum(lens), w, dt=dt), arr(r, sum(pos), w, dt=dt)
            d["XL9"] = arr(r, sum(lens), w * 3, dt=dt)
            d["YL"] = arr(r, len(lens), w, dt=dt)
            d["seqs"] = [arr(r, q, w) for q in lens]
            d["iseqs"] = [r.randint(0, 9, (q, 2)).astype("i") for q in lens]
            d["idx"] = r.randint(0, 6, n).astype("i")
            d["idx2"] = r.randint(0, 6, (n, 3)).astype("i")
            d["T"], d["vals"] = arr(r, 6, w), arr(r, n, w)
            d["keys"] = r.randint(0, 50, n + 2).astype("uint64")
            d["ragged"] = t.Ragged(arr(r, sum(lens), w), numpy.asarray(lens, "i"))
            d["ragged3"] = t.Ragged(arr(r, sum(pos), w, 2), numpy.asarray(pos, "i"))
            d["pairs"] = Pairs(arr(r, n, w), numpy.arange(n))
            d["padded"] = self.ops.list2padded([arr(r, q, w) for q in pos])
            d["padlist"] = arr(r, len(pos), max(pos), w)
            pr = numpy.exp(arr(r, n, 3))
            d["P"] = (pr / pr.sum(axis=1, keepdims=True)).astype("f")
            names = ["a", "b", "c"]
            d["tnames"] = [names[i] for i in r.randint(0, 3, n)]
            d["tneg"] = [["a", "!b", "-", "c", "!a"][i] for i in r.randint(0, 5, n)]
            d["tints"] = [int(i) for i in r.randint(0, 3, n)]
            d["tarr"] = r.randint(0, 3, n).astype("i")
            hot = numpy.zeros((n, 3), "f")
            hot[numpy.arange(n), d["tarr"]] = 1
            d["thot"] = hot
            d["thot2"] = numpy.where((hot == 0) & (r.uniform(size=hot.shape) < 0.3), numpy.float32(-1), hot)
            d["thot3"] = hot.astype("i")
            d["seqP"] = [d["P"][:1].copy(), d["P"].copy()]
            d["seqT"] = [d["tneg"][:1], list(d["tneg"])]
            d["m1"], d["m2"], d["g"], d["w1"] = arr(r, 5), abs(arr(r, 5)), arr(r, 5), arr(r, 5)
            q = sorted(pos, reverse=True)
            d["sizes"] = numpy.asarray([sum(1 for k in q if k > j) for j in range(max(q))], "i")
            d["Xt"], d["dYt"] = arr(r, sum(q), w), arr(r, sum(q), 2 * p)
            d["LSTM"] = arr(r, 2 * (4 * p * (w + p) + 8 * p)) * numpy.float32(0.3)
            d["H"] = arr(r, 2, 1, 2, p)
            d["nested"] = [d["X"], (d["Z"], {"k": d["Y"]}), t.ArgsKwargs((d["X"],), {"q": d["dY"]})]
            self.v.append(d)
        cc = dict(names=["a", "b", "c"], missing_value="-", neg_prefix="!")
        self.loss = {"cc": t.CategoricalCrossentropy(**cc), "ccn": t.CategoricalCrossentropy(normalize=False, missing_value=1),
                     "ccs": t.CategoricalCrossentropy(label_smoothing=0.1), "seq": t.SequenceCategoricalCrossentropy(**cc),
                     "l2": t.L2Distance(), "l2n": t.L2Distance(normalize=False), "cos": t.CosineDistance(ignore_zeros=True),
                     "cosn": t.CosineDistance(normalize=False)}
        for d in self.v:
            if n:
                d["Zc"] = d["Z"].copy()
                d["Zc"][0] = 0

        self.laid, self.guards = {}, []
        for k, d in enumerate(self.v):
            for kind in case.get("lays", ()):
                of = (lambda name: LAYOUTS[core.derive(case["seed"], name) % 4]) if kind == "mixed" else (lambda name: kind)
                self.laid[k, kind] = {**d, **{name: zoo.layout(d[name], of(name), self.guards, fill) for name in LAID}}

    def operands(self, v, lay):
        return self.laid[v, lay] if lay else self.v[v]

    def snap(self):
        out = [(f"beyond operands", zoo.spilled(self.guards))] if self.guards else []
        for k, d in list(enumerate(self.v)) + sorted(self.laid.items()):
            for name, x in d.items():
                if isinstance(k, tuple) and name not in LAID:
                    continue
                out += [(f"{name}{k}{p}", v) for p, v in zoo.snapshot(plain(x))]
        for name, l in self.loss.items():
            out += [(f"loss {name}.{k}{p}", v) for k, x in sorted(vars(l).items()) if k != "cc" for p, v in zoo.snapshot(x)]
        return out


def plain(x):
    """Containers that zoo.flat does not know."""
    from thinc.types import ArgsKwargs, Pairs
    if isinstance(x, Pairs):
        return {"one": x.one, "two": x.two}
    if isinstance(x, ArgsKwargs):
        return {"args": plain(x.args), "kwargs": plain(x.kwargs)}
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def zoo_ops(kind):
    from thinc.backends.ops import Ops
    return Ops(numpy)


# ------------------------------------------------------------------ calls

def reps(r):
    return r.choice([1, 2, 3])


def ragged_index(r, n):
    """A selection of sequences and the sequences it stands for."""
    k = r.choice(["int", "int", "slice", "slice", "array", "bool_", "list"])
    if k == "int" and n:
        i = r.randint(-n, n - 1)
        return i, [range(n)[i]]
    if k == "array" and n:
        i = [r.randrange(n) for _ in range(r.randint(1, 4))]
        return numpy.asarray(i, "i"), i
    if k == "list" and n:
        i = [r.randrange(n) for _ in range(r.randint(1, 3))]
        return numpy.asarray(i, dtype="int64"), i
    b = lambda: r.choice([None, 0, 1, 2, n, -1, -2, n + 2])
    s = slice(b(), b(), r.choice([None, None, None, 1, 2]))
    return s, list(range(n))[s]


def call(P, name, seed, v, inplace=False, lay=None, guards=None):
    """One call on the operands of variant v; returns (results, private arrays it may change)."""
    import thinc.api as t
    from thinc import util
    ops, d, r = P.ops, P.operands(v, lay), core.rng("call", seed)
    mine = (lambda x: zoo.layout(x, lay, guards)) if lay else (lambda x: x.copy())
    own = mine if inplace else (lambda x: x)
    if name.startswith("act:"):
        a = name[4:]
        return [getattr(ops, a)(own(d["X"]), inplace=inplace)]
    if name.startswith("bact:"):
        a = name[5:]
        f = getattr(ops, "backprop_" + a)
        args = [own(d["dY"])] + {"swish": [own(d["X"]), own(d["Z"])], "relu": [own(d["Z"])], "sigmoid": [own(d["Y"])]}.get(a, [own(d["X"])])
        return [f(*args, inplace=inplace)]
    if name == "erf":
        return [ops.erf(d["X"])]
    if name == "sechsq":
        return [ops.sechsq(d["X"])]
    if name in ("dsigmoid", "dtanh"):
        return [getattr(ops, name)(own(d["Y"]), inplace=inplace)]
    if name == "softmax":
        return [ops.softmax(own(d["X"]), inplace=inplace, temperature=r.choice([1.0, 1.0, 0.5]), axis=r.choice([-1, -1, 0]))] if len(d["X"]) else []
    if name == "bsoftmax":
        return [ops.backprop_softmax(d["Y"], d["dY"], temperature=r.choice([1.0, 0.5]))]
    if name == "softmax_seq":
        return [ops.softmax_sequences(d["XL1"], d["L1"])]
    if name == "bsoftmax_seq":
        return [ops.backprop_softmax_sequences(d["XL1"], abs(d["XL1"]), d["L1"])]
    if name == "tile":
        return [ops.tile(d["X"], reps(r))]
    if name == "as_contig":
        return [ops.as_contig(d["X"].T), ops.as_contig(d["X"]), ops.as_contig(d["X"], dtype="float32")]
    if name == "asarray":
        return [ops.asarray2f(d["X"]), ops.asarray1i(d["idx"]), ops.asarray_f(d["X"].tolist()), ops.asarray(d["idx"], dtype="float64")]
    if name == "reshape":
        return [ops.reshape2(d["X3"], len(d["X3"]), -1)] if d["X3"].size else []
    if name == "maxout":
        return list(ops.maxout(d["X3"]))
    if name == "bmaxout":
        return [ops.backprop_maxout(d["dY"], d["which"], d["X3"].shape[2])]
    if name == "seq2col":
        kw = {"lengths": d["L"]} if P.ops.name == "numpy" and r.random() < 0.5 and len(d["L"]) else {}
        return [ops.seq2col(d["XL"], 1, **kw)]
    if name == "bseq2col":
        kw = {"lengths": d["L"]} if P.ops.name == "numpy" and r.random() < 0.5 and len(d["L"]) else {}
        return [ops.backprop_seq2col(d["XL9"], 1, **kw)]
    if name == "gemm":
        k = r.randrange(3)
        if k == 0:
            return [ops.gemm(d["A"], d["B"])]
        if k == 1:
            return [ops.gemm(d["X"], d["Z"], trans2=True)]
        return [ops.gemm(d["X"], d["Z"], trans1=True)]
    if name == "gemm_out":
        out = mine(numpy.full((d["A"].shape[0], d["B"].shape[1]), 9.5, d["A"].dtype))
        return [ops.gemm(d["A"], d["B"], out=out), out]
    if name == "lstm":  # the generic one only does the first sequence
        if ops.name != "numpy" or type(ops).__name__ == "Ops":
            return []
        args = d["LSTM"], d["H"][0], d["H"][1], d["Xt"], d["sizes"]
        if r.random() < 0.3:
            return [ops.lstm_forward_inference(*args)]
        Y, state = ops.lstm_forward_training(*args)
        if r.random() < 0.3:
            return [Y]
        return [Y] + list(ops.backprop_lstm(d["dYt"], d["sizes"], d["LSTM"], state))
    if name == "affine":
        return [ops.affine(d["Xf"], d["W"], d["b"])]
    if name == "flatten":
        return [ops.flatten(d["seqs"], pad=r.choice([0, 0, 1, 2])), ops.flatten(d["iseqs"], dtype=r.choice([None, "float32"])), ops.flatten([])]
    if name == "unflatten":
        return [ops.unflatten(d["XL"], d["L"])]
    if name == "unflatten_pad":
        k = r.choice([1, 2])
        return [ops.unflatten(ops.flatten(d["seqs"], pad=k), d["L"], pad=k)]
    if name == "pad":
        return [ops.pad(d["seqs"], round_to=reps(r)), ops.pad(d["iseqs"])]
    if name == "unpad":
        return [ops.unpad(d["padlist"], [int(x) for x in d["L1"]])]
    if name == "list2padded":
        return [ops.list2padded(d["seqs"])]
    if name == "padded2list":
        return [ops.padded2list(d["padded"])]
    if name == "alloc":
        n = r.choice([0, 1, 3])
        return [ops.alloc2f(n, 3), ops.alloc1i(n), ops.alloc((n, 2), dtype="d"), ops.alloc3f(1, n, 2), ops.alloc_i((n,)), ops.alloc4f(1, n, 1, 2)]
    if name == "position":
        return [ops.position_encode(r.choice([1, 3, 6]), r.choice([2, 4]), period=r.choice([10000, 100]))]
    if name == "hash":
        return [ops.hash(d["keys"], r.choice([1, 1, 7]))]
    if name == "ngrams":
        return [ops.ngrams(r.choice([1, 2, 3]), d["keys"])]
    if name == "gather_add":
        return [ops.gather_add(d["T"], d["idx2"])]
    if name == "scatter_add":
        T = mine(d["T"])
        ops.scatter_add(T, d["idx"], d["vals"])
        return [T]
    if name.startswith("reduce_"):
        k = name[7:]
        if k in ("sum", "mean"):
            return [getattr(ops, name)(d["XL"], d["L"])]
        return list(getattr(ops, name)(d["XL1"], d["L1"]))
    if name.startswith("breduce_"):
        k = name[8:]
        f = getattr(ops, "backprop_reduce_" + k)
        if k in ("sum", "mean"):
            return [f(d["YL"], d["L"] if k == "sum" else d["L1"])]
        if k == "max":
            return [f(d["YL"], numpy.zeros(d["YL"].shape, "i"), d["L1"])]
        if k == "first":
            return [f(d["YL"], numpy.concatenate([[0], numpy.cumsum(d["L1"])]).astype("i"))]
        return [f(d["YL"], (numpy.cumsum(d["L1"]) - 1).astype("i"))]
    if name == "adam":
        xs = [mine(d[k]) for k in ("w1", "g", "m1", "m2")]
        return list(ops.adam(*xs, 0.9, 0.99, 1e-3, 0.1, 1.0))
    if name == "averages":
        e = mine(d["m1"])
        ops.update_averages(e, d["w1"], r.choice([1, 5, 50]))
        return [e]
    if name == "clip":
        return [ops.clip_gradient(mine(d["g"]), r.choice([0.1, 100.0]))]
    if name.startswith("loss:"):
        return loss_call(P, d, name[5:], r)
    if name == "categorical":
        return [util.to_categorical(d["tarr"], n_classes=4, label_smoothing=r.choice([0.0, 0.1])), util.to_categorical(d["tarr"])] if len(d["tarr"]) else []
    if name == "convert":
        f = lambda x: x * 2
        return [plain(util.convert_recursive(lambda x: isinstance(x, numpy.ndarray), f, d["nested"])),
                [x.shape for x in util.iterate_recursive(lambda x: isinstance(x, numpy.ndarray), d["nested"])]]
    if name == "torch":
        T = util.xp2torch(d["Xf"], requires_grad=r.random() < 0.5)
        return [util.torch2xp(T * 2), util.torch2xp(util.xp2torch(d["Xf"])), [util.get_width(d["X"]), util.get_width(d["seqs"])]]
    if name in ("ragged", "ragged3"):
        x = got = d[name]
        which, path = list(range(len(x.lengths))), name
        for _ in range(r.choice([1, 1, 2, 3])):  # selections of selections
            i, sel = ragged_index(r, len(got.lengths))
            got, which, path = got[i], [which[q] for q in sel], f"{path}[{i!r}]"
        rows = [x.data[int(x.lengths[:q].sum()):int(x.lengths[:q + 1].sum())] for q in which]
        check(got.lengths.tolist() == [int(x.lengths[q]) for q in which], "wrong-selection", lambda: f"{path} has lengths {got.lengths}")
        if x.data.size:
            want = numpy.concatenate(rows) if rows else x.data[:0]
            check(got.data.tobytes() == want.tobytes(), "wrong-selection", lambda: f"{path} does not hold the rows of sequences {which}")
            if want.size:
                check(got.dataXd.shape == (len(want),) + x.dataXd.shape[1:], "wrong-selection", lambda: f"{path}: rows of shape {got.dataXd.shape}")
        return [got.lengths, got.data if got.data.size else None, x.dataXd]
    if name == "pairs":
        p = d["pairs"]
        i = r.choice([slice(0, 1), slice(None), slice(1, None)])
        q = p[i]
        return [q.one, q.two, len(p)]
    if name == "padcopy":
        c = d["padded"].copy()
        out = zoo.snapshot(c)
        c.data[...] = 7
        c.lengths[...] = 1
        return [v for _, v in out]
    if name == "batch":
        x = r.choice([d["X"], d["seqs"], d["ragged"] if d["ragged"].data.size else d["X"]])
        return [list(ops.minibatch(reps(r), x))]
    raise core.HarnessError(name)


def loss_call(P, d, how, r):
    which, fn = how.split(".")
    l = P.loss[which]
    if which in ("l2", "l2n", "cos", "cosn"):
        args = (d["Xf"], d["vals"])
    elif which == "seq":
        args = (d["seqP"], d["seqT"])
    elif which == "cc":
        args = (d["P"], d[r.choice(["tneg", "tneg", "tnames", "thot", "thot2", "thot3", "tarr"])])
    elif which == "ccn":
        args = (d["P"], d[r.choice(["tints", "tarr", "thot", "thot3"])])
    else:
        args = (d["P"], d[r.choice(["tints", "tarr"])])
    res = {"grad": l.get_grad, "loss": l.get_loss, "both": l}[fn](*args)
    return [res]


NAMES = (["act:" + a for a in ACT] + ["bact:" + a for a in ACT] + UN * 1 + ["bsoftmax", "softmax_seq", "bsoftmax_seq", "maxout", "bmaxout", "seq2col",
         "bseq2col", "gemm", "gemm_out", "lstm", "lstm", "affine", "flatten", "unflatten", "unflatten_pad", "pad", "unpad", "list2padded", "padded2list", "alloc",
         "position", "hash", "ngrams", "gather_add", "scatter_add", "adam", "averages", "clip", "categorical", "convert", "torch", "pairs", "padcopy",
         "batch"] + ["reduce_" + k for k in ("sum", "mean", "max", "first", "last")] + ["breduce_" + k for k in ("sum", "mean", "max", "first", "last")]
         + ["ragged"] * 4 + ["ragged3"] * 4
         + [f"loss:{l}.{f}" for l in ("cc", "ccn", "ccs", "seq", "l2", "l2n", "cos", "cosn") for f in ("grad", "loss", "both")])
INPLACE = ["act:" + a for a in ACT] + ["bact:" + a for a in ACT] + ["dsigmoid", "dtanh", "softmax"]


# ------------------------------------------------------------------ cases

def gen(r, tier):
    lens = [r.choice([0, 1, 2, 3, 5]) for _ in range(r.randint(1, 4))]
    if not any(lens):
        lens[0] = 2
    case = {"seed": r.randrange(2 ** 30), "ops": r.choice(["numpy", "numpy", "vanilla"]),
            "shape": {"n": r.choice([1, 2, 3, 5, 8]), "w": r.choice([1, 2, 3, 4, 7]), "p": r.choice([1, 2, 3]), "dt": r.choice(["f", "f", "d"]), "lens": lens}}
    lays = sorted(r.sample(LAYOUTS, r.randint(1, 2))) if r.random() < 0.35 else []
    if lays:
        case["lays"] = lays
    focus = r.sample(NAMES, r.randint(1, 4))

    def one(faults):
        name = r.choice(focus) if r.random() < 0.75 else r.choice(NAMES)
        c = {"f": name, "s": r.randrange(80), "v": r.randrange(2)}
        if name in INPLACE and r.random() < 0.35:
            c["in"] = True
        if lays and r.random() < 0.5:
            c["lay"] = r.choice(lays)
        if faults and r.random() < 0.3:
            c["fail"] = [int(10 ** r.uniform(0, 2.2)), r.choice(EXC)]
        return c
    n = r.choice([1, 2, 2, 3, 4])
    case["threads"] = [[one(n == 1) for _ in range(r.randint(2, 12) if n == 1 else r.randint(1, 4))] for _ in range(n)]
    if n > 1:
        case["sched"] = C.gen_sched(r, n)
        if case["sched"]["kind"] == "random":
            case["sched"]["gap"] = r.choice([2, 4, 8, 15, 40])
    return case


def describe(case):
    return {"ops": case["ops"], "shape": case["shape"], "calls": [[c["f"] + ("!" if c.get("in") else "") + (":" + c["lay"] if c.get("lay") else "") for c in t] for t in case["threads"]]}


def alone(case, c):
    """What one call returns when nothing else ever happened; runs in a process of its own."""
    with numpy.errstate(all="ignore"):
        return result(lambda: call(Pool(case, 55), c["f"], c["s"], c["v"], lay=c.get("lay")))


def result(fn):
    """Comparable form of a result; an exception of the library is a result as well."""
    try:
        res = fn()
    except (core.Violation, core.HarnessError):
        raise
    except Exception as e:
        return [("error", type(e).__name__)]
    return [(p, v.copy() if isinstance(v, numpy.ndarray) else v) for p, v in zoo.flat(plain(res))]


_child = []


def child():
    from sim.child import Child
    if not _child:
        _child.append(Child({"PYTHONHASHSEED": "0"}))
    return _child[0]


def ident(c):
    return core.canon({k: c.get(k) for k in ("f", "s", "v", "lay")})


def run(case, run):
    calls = {ident(c): c for t in case["threads"] for c in t}
    try:
        replies = child().call("c18", "alone", *[(case, c) for c in calls.values()], fresh=True)
    except EOFError:
        _child.clear()
        raise core.Violation("process-died", "a call ended the process it ran in")
    want = {}
    for key, (status, res) in zip(calls, replies):
        if status == "violation":
            raise core.Violation("wrong-selection", f"{calls[key]['f']} in a fresh process: {res}")
        check(status == "ok", "process-died", lambda: f"{calls[key]['f']} alone: {res}")
        want[key] = res
    with numpy.errstate(all="ignore"):
        P = Pool(case)
    before = P.snap()
    held = []

    def do(c, where):
        key = ident(c)
        guards = []
        if c.get("fail"):
            exc = make_exc(c["fail"][1])
            ra = instr.RaiseAt(c["fail"][0], exc)
            try:
                with ra, numpy.errstate(all="ignore"):
                    call(P, c["f"], c["s"], c["v"], c.get("in", False), c.get("lay"), guards)
            except (core.Violation, core.HarnessError):
                raise
            except BaseException as e:
                if e is exc:
                    run.fault("raise_at_instruction:" + c["fail"][1])
                elif not isinstance(e, Exception):
                    raise
            d = zoo.exact(before, P.snap())
            check(d is None, "operand-changed", lambda: f"{where}: a call that failed changed {d}")
        with numpy.errstate(all="ignore"):
            live = []
            got = result(lambda: live.append(call(P, c["f"], c["s"], c["v"], c.get("in", False), c.get("lay"), guards)) or live[0])
        check(not zoo.spilled(guards), "operand-changed", lambda: f"{where}: {c['f']} wrote beyond its operands")
        d = zoo.diff(want[key], got, 1e-4, 1e-6)
        check(d is None, "result-differs", lambda: f"{where}: {c['f']}{' in place' if c.get('in') else ''} differs from the call alone in a fresh process: {d}")
        if live:
            held.append((f"result of {where} {c['f']}", live[0], got))
        run.steps += 1
        run.log.add(c["f"], c["s"], c["v"])

    if case.get("sched"):
        s = C.run_threads([(lambda i=i, t=t: [do(c, f"thread {i} call {j}") for j, c in enumerate(t)] and None)
                           for i, t in enumerate(case["threads"])], case["sched"], run)
        C.raise_thread_errors(s)
    else:
        instr.enable()
        for j, c in enumerate(case["threads"][0]):
            do(c, f"call {j}")
        run.measure.add(core.fp((case["ops"], tuple((c["f"], c["s"], c["v"], str(c.get("fail"))) for c in case["threads"][0]))))
    d = zoo.exact(before, P.snap())
    check(d is None, "operand-changed", lambda: f"a shared operand changed: {d}")
    for what, live, snap in held:
        d = zoo.exact([(p, v) for p, v in zoo.flat(plain(live))], snap)
        check(d is None, "result-changed", lambda: f"{what} changed after it was returned: {d}")
    used = [c["f"] for t in case["threads"] for c in t]
    run.nontrivial = len(used) > 1


def explicit(case, ex):
    return C.explicit_mode(case, ex) if case.get("sched") else case


def shrink(case):
    if case.get("sched"):
        for i in range(len(case["threads"])):
            if case["threads"][i]:
                yield {**case, "threads": [[] if j == i else t for j, t in enumerate(case["threads"])]}
        yield {k: v for k, v in {**case, "threads": [[c for t in case["threads"] for c in t]]}.items() if k != "sched"}
    for i, t in enumerate(case["threads"]):
        for xs in core.shrink_list(t, 0 if case.get("sched") else 1):
            yield {**case, "threads": case["threads"][:i] + [xs] + case["threads"][i + 1:]}
        for j, c in enumerate(t):
            for k in ("fail", "in", "lay"):
                if k in c:
                    c2 = {q: v for q, v in c.items() if q != k}
                    yield {**case, "threads": case["threads"][:i] + [t[:j] + [c2] + t[j + 1:]] + case["threads"][i + 1:]}
    if case.get("lays") and not any(c.get("lay") for t in case["threads"] for c in t):
        yield {k: v for k, v in case.items() if k != "lays"}
    s = case["shape"]
    for k, v in (("n", 1), ("n", 2), ("w", 1), ("w", 2), ("p", 1), ("dt", "f")):
        if s[k] != v:
            yield {**case, "shape": {**s, k: v}}
    for xs in core.shrink_list(s["lens"], 1):
        if any(xs):
            yield {**case, "shape": {**s, "lens": xs}}
    yield from C.shrink_sched(case)
