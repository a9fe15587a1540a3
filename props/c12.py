"""C12: batching visits every item exactly once, in order and aligned.

Several consumers iterate over the same batches of real `minibatch`/`multibatch` calls: interleaved by the seeded
scheduler, in simulated threads, abandoned half way, or broken off by a source that fails at a seeded access.
Oracle: the items themselves and a direct computation of the batch sizes."""
import itertools

import numpy

from sim import core
from sim.core import check

from . import common as C

META = {
    "runs": {"quick": 24000, "thorough": 250000},
    "rule": "1-3 sequences of seeded types and 0-40 items, seeded size schedule and buffer, 1-5 consumers; non-trivial when there "
            "was more than one consumer, an abandoned pass or a failing source",
    "measure": "distinct (sequence types, sizes, buffer, consumer steps) tuples",
    "real": ["thinc Ops.minibatch/multibatch, Ragged, Pairs, SizedGenerator, schedules", "numpy"],
    "stub": ["thread scheduler", "data sources that fail on demand"],
    "assumptions": ["sequences that are batched together are at least as long as the first, which decides the items"],
}

TYPES = ["list", "list", "tuple", "array1", "array2", "array3", "ragged", "ragged3", "pairs", "pairsr", "lazy", "simlist", "strs", "noncontig"]


def gen(r, tier):
    if r.random() < 0.004:
        return {"kind": "padded", "n": r.randint(2, 6), "size": r.randint(1, 3), "seed": r.randrange(2 ** 30)}
    n = r.choice([0, 1, 2, 3, 5, 8, 13, 20, 40])
    x = r.random()
    if x < 0.45:
        size = {"int": r.choice([1, 2, 3, 4, 7, 16, 100])}
    elif x < 0.7:
        size = {"gen": [r.choice([1, 2, 3, 5, 2.5, 1.9]) if r.random() < 0.8 else r.randint(1, 30) for _ in range(r.randint(1, 6))]}
    elif x < 0.85:
        a, b = r.choice([1, 1.5, 2]), r.choice([4, 10, 32])
        size = {"compounding": [a, b, r.choice([1.1, 1.5, 2.0])]}
    else:
        size = {"numpy": [r.randint(1, 6) for _ in range(r.randint(1, 4))]}
    multi = r.random() < 0.5
    seqs = [r.choice(TYPES) for _ in range(r.randint(1, 3) if multi else 1)]
    consumers = []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        c = {}
        if r.random() < 0.35:
            c["take"] = r.randint(0, 5)
            c["end"] = r.choice(["close", "drop", "throw"])
        consumers.append(c)
    case = {"kind": "pass", "n": n, "size": size, "multi": multi, "seqs": seqs, "shuffle": r.random() < 0.5,
            "buffer": r.choice([1, 1, 2, 3, 10]), "ops": r.choice(["numpy", "numpy", "vanilla"]), "consumers": consumers,
            "seed": r.randrange(2 ** 30), "via": r.choice(["ops", "ops", "model"])}
    if len(seqs) > 1 and r.random() < 0.15:
        case["extra"] = [r.randint(0, 3) for _ in seqs[1:]]
    if any(t in ("lazy", "simlist") for t in seqs) and r.random() < 0.6:
        case["fail"] = [r.randint(0, 2 * n + 2) for _ in range(r.randint(1, 2))]
    if len(consumers) > 1 and r.random() < 0.4:
        case["sched"] = C.gen_sched(r, len(consumers))
    return case


def describe(case):
    return {k: case[k] for k in ("n", "seqs", "size", "shuffle", "buffer", "consumers") if k in case}


class Source:
    """Counts accesses and fails at the armed ones."""

    def __init__(self, run, fails):
        self.run, self.fails, self.count = run, set(fails), 0

    def touch(self):
        self.count += 1
        if self.count in self.fails:
            self.run.fault("source_fails")
            raise core.InjectedFault("data source")


class SimList(list):
    src = None

    def __getitem__(self, i):
        self.src.touch()
        return list.__getitem__(self, i)


class Lazy:
    """A data set that loads items by index."""

    def __init__(self, src, items):
        self.src, self.items = src, items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, idx):
        out = []
        for i in idx:
            self.src.touch()
            out.append(self.items[int(i)])
        return out


def make(t, n, r, src):
    """(sequence, content of every item)"""
    from thinc.types import Pairs, Ragged
    if t == "list":
        v = [("item", i) for i in range(n)]
        return v, list(v)
    if t == "strs":
        v = [f"text {i}" for i in range(n)]
        return v, list(v)
    if t == "tuple":
        v = tuple(i * 3 for i in range(n))
        return v, list(v)
    if t == "simlist":
        v = SimList(range(n))
        v.src = src
        return v, list(range(n))
    if t == "lazy":
        v = [f"lazy{i}" for i in range(n)]
        return Lazy(src, v), list(v)
    if t in ("array1", "array2", "array3", "noncontig"):
        a = numpy.arange(n, dtype="i") + 7 if t == "array1" else r.uniform(-1, 1, (n, 2) if t == "array2" else (n, 2, 3)).astype("f")
        if t == "noncontig":
            a = numpy.asfortranarray(r.uniform(-1, 1, (n, 6)).astype("f"))[:, ::2]
        return a, [canon(a[i]) for i in range(n)]
    if t in ("ragged", "ragged3"):
        lens = r.choice([0, 1, 2, 3], n) if n else numpy.zeros((0,))
        if lens.sum() == 0 and n:
            lens[0] = 1
        w = (2,) if t == "ragged" else (2, 3)
        data = r.uniform(-1, 1, (int(lens.sum()),) + w).astype("f")
        ends = numpy.cumsum(lens).astype("i")
        out = [canon(data[int(e - k):int(e)].reshape((int(k), int(numpy.prod(w))))) for e, k in zip(ends, lens)]
        return Ragged(data, lens.astype("i")), out
    if t == "pairs":
        a, ca = make("array2", n, r, src)
        b, cb = make("array1", n, r, src)
        return Pairs(a, b), list(zip(ca, cb))
    if t == "pairsr":
        a, ca = make("ragged", n, r, src)
        b, cb = make("array1", n, r, src)
        return Pairs(a, b), list(zip(ca, cb))
    raise core.HarnessError(t)


def canon(a):
    return (a.shape, a.dtype.kind, numpy.ascontiguousarray(a).tobytes())


def items_of(t, batch, want):
    """The content of the items of a batch."""
    from thinc.types import Pairs, Ragged
    if t in ("list", "strs", "simlist", "lazy"):
        check(isinstance(batch, list), "batch-type", f"{t}: {type(batch).__name__}")
        return list(batch)
    if t == "tuple":
        check(isinstance(batch, tuple), "batch-type", f"{t}: {type(batch).__name__}")
        return list(batch)
    if t in ("array1", "array2", "array3", "noncontig"):
        check(isinstance(batch, numpy.ndarray), "batch-type", f"{t}: {type(batch).__name__}")
        return [canon(x) for x in batch]
    if t in ("ragged", "ragged3"):
        check(isinstance(batch, Ragged), "batch-type", f"{t}: {type(batch).__name__}")
        out, i = [], 0
        w = 2 if t == "ragged" else 6
        check(len(batch.data) == int(batch.lengths.sum()), "batch-inconsistent", lambda: f"{t}: {len(batch.data)} rows, lengths {batch.lengths}")
        if t == "ragged3" and batch.data.size:
            check(batch.dataXd.shape[1:] == (2, 3), "batch-shape", lambda: f"{batch.dataXd.shape}")
        for k in batch.lengths:
            d = batch.data[i:i + int(k)]
            out.append(canon(d.reshape((int(k), w))))
            i += int(k)
        return out
    check(isinstance(batch, Pairs), "batch-type", f"{t}: {type(batch).__name__}")
    return list(zip(items_of("array2" if t == "pairs" else "ragged", batch.one, None), items_of("array1", batch.two, None)))


def sizes_of(size):
    """Endless iterator of the sizes asked for."""
    if "int" in size:
        return itertools.repeat(size["int"])
    if "gen" in size or "numpy" in size:
        xs = size.get("gen") or size["numpy"]
        return itertools.chain(xs, itertools.repeat(xs[-1]))
    a, b, c = size["compounding"]
    return (min(a * c ** i, b) for i in itertools.count())


def real_size(size):
    from thinc.api import compounding
    if "int" in size:
        return size["int"]
    if "gen" in size:
        return (x for x in sizes_of(size))
    if "numpy" in size:
        return (numpy.int64(x) for x in sizes_of(size))
    return compounding(*size["compounding"]).to_generator()


def known(case, v):
    if case["kind"] == "padded" and v.cls == "padded-batch":
        return "minibatch-padded"


def run_padded(case, run):
    """Batches of a Padded; `Batchable` promises it can be batched."""
    from thinc.api import NumpyOps
    r = numpy.random.RandomState(case["seed"])
    ops = NumpyOps()
    seqs = [r.uniform(-1, 1, (k, 2)).astype("f") for k in r.choice([1, 2, 3], case["n"])]
    padded = ops.list2padded(seqs)
    run.nontrivial = True
    run.measure.add(core.fp(("padded", case["n"], case["size"])))
    try:
        got = []
        for b in ops.minibatch(case["size"], padded):
            got += [x for x in ops.padded2list(b)]
    except Exception as e:
        raise core.Violation("padded-batch", f"batching a Padded raised {type(e).__name__}: {e}")
    check(sorted(canon(x) for x in got) == sorted(canon(x) for x in seqs), "padded-batch", "the batches of a Padded do not hold its items")


def run(case, run):
    from thinc.api import NumpyOps
    from thinc.backends.ops import Ops
    if case["kind"] == "padded":
        return run_padded(case, run)
    seed, n = case["seed"], case["n"]
    r = numpy.random.RandomState(seed % 2 ** 32)
    C.seed_all(seed)
    ops = NumpyOps() if case["ops"] == "numpy" else Ops(numpy)
    src = Source(run, case.get("fail", []))
    extra = [0] + list(case.get("extra", ()))
    made = [make(t, n + (extra[k] if k < len(extra) else 0), r, src) for k, t in enumerate(case["seqs"])]
    want = [w[:n] for _, w in made]
    seqs = [s for s, _ in made]
    src.count = 0
    kw = {"shuffle": case["shuffle"], "buffer": case["buffer"]}
    if case["multi"]:
        batches = ops.multibatch(real_size(case["size"]), *seqs, **kw)
    else:
        batches = ops.minibatch(real_size(case["size"]), seqs[0], **kw)
    sizes, left = [], n
    for s in sizes_of(case["size"]):
        if left <= 0:
            break
        sizes.append(min(int(s), left))
        left -= int(s)
    check(len(batches) == len(sizes), "announced-batches", lambda: f"len() is {len(batches)}, {n} items of sizes {case['size']} make {len(sizes)}")

    def judge(got, complete, who):
        """The batches one consumer got so far."""
        check(len(got) <= len(sizes), "too-many-batches", lambda: f"{who}: {len(got)} batches, announced {len(sizes)}")
        if complete:
            check(len(got) == len(sizes), "batches-missing", lambda: f"{who}: {len(got)} batches, announced {len(sizes)}")
        seen = [[] for _ in seqs]
        for j, b in enumerate(got):
            parts = b if case["multi"] else [b]
            check(len(parts) == len(seqs), "batch-type", lambda: f"{who}: batch {j} has {len(parts)} parts")
            for k, (t, part) in enumerate(zip(case["seqs"], parts)):
                xs = items_of(t, part, want[k])
                check(len(xs) == sizes[j], "batch-size", lambda: f"{who}: batch {j} of {t} has {len(xs)} items, asked for {sizes[j]}")
                seen[k] += xs
        m = len(seen[0])
        if not case["shuffle"]:
            for k, t in enumerate(case["seqs"]):
                check(seen[k] == want[k][:m], "wrong-items", lambda: f"{who}: {t}: not the items 0..{m - 1} in order")
            return
        # one permutation for all sequences
        rows, rest = list(zip(*seen)), list(zip(*want))
        for row in rows:
            check(row in rest, "wrong-items" if len(seqs) == 1 or row not in list(zip(*want)) else "item-repeated",
                  lambda: f"{who}: items {str(row)[:200]} are misaligned, unknown or repeated")
            rest.remove(row)
        if complete:
            check(not rest, "items-missing", lambda: f"{who}: {len(rest)} items were never visited")
            if n >= 12 and len({str(w) for w in want[0]}) >= 12:
                check(rows != list(zip(*want)), "not-shuffled", lambda: f"{who}: {n} items came in their original order")

    state = [{"it": None, "got": [], "done": None} for _ in case["consumers"]]

    def advance(i):
        """One step of consumer i; returns whether it goes on."""
        st, c = state[i], case["consumers"][i]
        if st["it"] is None:
            st["it"] = iter(batches)
        if "take" in c and len(st["got"]) >= c["take"]:
            st["done"] = c["end"]
            run.fault("pass_abandoned:" + c["end"])
            if c["end"] == "close":
                st["it"].close()
            elif c["end"] == "throw":
                try:
                    st["it"].throw(core.InjectedFault("consumer"))
                    raise core.Violation("fault-swallowed", f"consumer {i}: an exception thrown into the iterator vanished")
                except (core.InjectedFault, StopIteration):
                    pass
            st["it"] = None
            return False
        try:
            st["got"].append(next(st["it"]))
            return True
        except StopIteration:
            st["done"] = "end"
        except core.InjectedFault:
            st["done"] = "source failed"
        return False

    order = []
    if case.get("sched"):
        def consumer(i):
            def fn():
                while advance(i):
                    pass
            return fn
        s = C.run_threads([consumer(i) for i in range(len(state))], case["sched"], run)
        C.raise_thread_errors(s)
    else:
        rr = core.rng("order", seed)
        live = list(range(len(state)))
        while live:
            i = live[rr.randrange(len(live))]
            order.append(i)
            if not advance(i):
                live.remove(i)
            run.steps += 1
    for i, st in enumerate(state):
        judge(st["got"], st["done"] == "end", f"consumer {i}")
    # whatever happened, another pass is complete
    src.fails = set()
    again = list(batches)
    judge(again, True, "later pass")
    check(len(batches) == len(sizes), "announced-batches", "len() changed")
    # a batch is a sequence again: batches of batches, also of shuffled batches that hold everything
    if case["seed"] % 2 and n:
        whole = list(ops.multibatch(n, *seqs, shuffle=True) if case["multi"] else ops.minibatch(n, seqs[0], shuffle=True))
        for j, b in enumerate((again[:3] + whole) if case["seed"] % 4 == 1 else (whole + again[:2])):
            parts = b if case["multi"] else [b]
            for t, part in zip(case["seqs"], parts):
                inside = items_of(t, part, None)
                k = 1 + (case["seed"] // 8) % 3
                out = []
                for sub in ops.minibatch(k, part):
                    out += items_of(t if t != "lazy" else "list", sub, None)
                check(out == inside, "wrong-items", lambda: f"batch {j} of {t} batched again by {k}: not its items in order")
                mixed = []
                for sub in ops.minibatch(k, part, shuffle=True):
                    mixed += items_of(t if t != "lazy" else "list", sub, None)
                check(sorted(map(repr, mixed)) == sorted(map(repr, inside)), "wrong-items",
                      lambda: f"batch {j} of {t} batched again by {k} and shuffled: not its items")
        run.probe("batches_of_batches")
    fresh = list(ops.multibatch(case["size"].get("int", 3), *seqs) if case["multi"] else ops.minibatch(3, seqs[0]))
    sizes = [len(range(i, min(i + (case["size"].get("int", 3) if case["multi"] else 3), n)))
             for i in range(0, n, case["size"].get("int", 3) if case["multi"] else 3)]
    case_shuffle = case["shuffle"]
    case = {**case, "shuffle": False}
    judge(fresh, True, "unshuffled pass over the same data")
    run.nontrivial = len(state) > 1 or any(st["done"] != "end" for st in state)
    run.log.add([st["done"] for st in state], order, [len(st["got"]) for st in state])
    run.measure.add(core.fp((tuple(case["seqs"]), str(case["size"]), case["buffer"], tuple(order), case_shuffle, n)))


def explicit(case, ex):
    return C.explicit_mode(case, ex) if case.get("sched") else case


def shrink(case):
    if case["kind"] == "padded":
        if case["n"] > 2:
            yield {**case, "n": case["n"] - 1}
        return
    if not case.get("sched"):
        yield from C.shrink_key_list(case, "consumers", 1)
    if case["multi"]:
        yield from C.shrink_key_list(case, "seqs", 1)
    if case.get("extra"):
        yield {k: v for k, v in case.items() if k != "extra"}
    if case.get("fail"):
        yield from C.shrink_key_list(case, "fail")
    for n in (0, 1, 2, 3, 5, case["n"] - 1):
        if 0 <= n < case["n"]:
            yield {**case, "n": n}
    for key, v in (("buffer", 1), ("size", {"int": 1}), ("size", {"int": 2}), ("shuffle", False), ("multi", False)):
        if case[key] != v and not (key == "multi" and len(case["seqs"]) > 1):
            yield {**case, key: v}
    yield from C.shrink_sched(case)
