"""C19: edits of the layer tree take effect everywhere and disturb nothing else.

A seeded history adds, removes, replaces and wraps nodes of real layer trees (with shared nodes and references), while
batches are in flight, walks are in progress and updates, copies and saves happen in between; edits are broken off at
seeded instructions and repeated.  Oracle: a small executable reference model of the tree (children, references,
scalar weights, gradients, tapes of the batches in flight)."""
import numpy

from sim import core, instr, zoo
from sim.core import check

from . import common as C

META = {
    "runs": {"quick": 8000, "thorough": 120000},
    "rule": "tree of 3-10 nodes with shared nodes and references and 5-40 operations on any of its nodes, 15 % of the edits broken off at a "
            "seeded instruction and repeated; or a model of the grammar that is wrapped throughout, or taken apart while its batches are in flight; "
            "non-trivial when an edit changed a tree with a shared node, a reference or a batch in flight",
    "measure": "distinct (tree shape, operation) pairs",
    "real": C.REAL,
    "stub": ["leaf layers of the edited trees multiply by one scalar weight", "exceptions raised at instructions of thinc that can fail"],
    "assumptions": ["an iterator over walk() is not expected to follow edits made while it is in use",
                    "references are set to nodes below the referring node, as set_ref demands"],
}

KINDS = ["scale", "scale", "scale", "noop", "chain", "chain", "add", "add", "residual", "seq"]
OPS = ["new", "append", "append", "insert", "pop", "assign", "remove", "remove", "remove", "replace", "replace", "replace", "replace", "setref",
       "setref", "setref", "badref", "unref", "wrap", "wrapall", "callbacks", "fwd", "fwd", "fwd", "bwd", "bwd", "update", "predict", "copy",
       "save", "walks", "rate", "attrs", "weight", "grads", "debug"]
FALLIBLE = ("remove", "replace", "unref", "setref")


def gen(r, tier):
    seed = r.randrange(2 ** 30)
    x = r.random()
    if x < 0.15:
        return {"kind": "flight", "m": zoo.gen(r, {"depth": r.choice([1, 2, 3])}), "seed": seed, "how": r.choice(["clear", "callbacks", "replace", "cut"]),
                "n": r.choice([1, 2, 3])}
    if x < 0.3:
        return {"kind": "wrap", "m": zoo.gen(r, {"depth": r.choice([1, 2, 3])}), "seed": seed, "how": r.choice(["debug", "outer", "mixed", "outer2"])}
    n = r.choice([3, 5, 8, 10])
    tree = []
    for i in range(n):
        k = r.choice(KINDS) if i < n - 2 else "scale"
        tree.append([k if i else r.choice(["chain", "add", "seq"]), [r.randrange(1000) for _ in range(r.choice([1, 2, 2, 3]))]])
    ops = []
    for _ in range(r.choice([5, 10, 20, 40])):
        op = r.choice(OPS)
        ops.append([op, r.randrange(1000), r.randrange(1000), r.randrange(1000),
                    [r.random() for _ in range(r.choice([1, 1, 2]))] if op in FALLIBLE and r.random() < 0.3 else []])
    return {"kind": "edit", "seed": seed, "tree": tree, "refs": [[r.randrange(1000), r.randrange(1000), r.random() < 0.3] for _ in range(r.choice([0, 1, 3]))],
            "ops": ops}


def describe(case):
    if case["kind"] != "edit":
        return {"kind": case["kind"], "model": C.describe_model(case["m"]), "how": case["how"]}
    return {"kind": "edit", "tree": [k for k, c in case["tree"]], "ops": [[o[0], "broken off"] if o[4] else o[0] for o in case["ops"]]}


# ------------------------------------------------------------------ reference model

class Node:
    """A node as the documentation describes it."""

    def __init__(self, kind, kids=(), w=None):
        self.kind, self.kids, self.refs, self.w, self.g, self.attrs = kind, list(kids), {}, w, None, {}
        self.debug = self.hooks = self.want = 0  # hooks attached, their calls, the calls they should have had
        self.real = None

    def walk(self):
        queue, seen = [self], []
        for n in queue:
            if n not in seen:
                seen.append(n)
                queue.extend(n.kids)
        return seen

    def pre(self):
        out = []

        def go(n):
            if n not in out:
                out.append(n)
                for k in n.kids:
                    go(k)
        go(self)
        return out

    def post(self):
        out, seen = [], []

        def go(n):
            if n not in seen:
                seen.append(n)
                for k in n.kids:
                    go(k)
                out.append(n)
        go(self)
        return out

    def ready(self):
        """Can it be applied?"""
        return all((n.kind not in ("chain", "residual") or n.kids) and n.kind != "broken" for n in self.walk())

    def apply(self, x):
        """(y, tape): the tape turns the gradient of y into that of x and adds up (node, dw)."""
        self.want += self.debug
        if self.kind == "scale":
            w = self.w
            return x * w, lambda d, out: (out.append((self, float((x * d).sum()))), d * w)[1]
        if self.kind in ("noop", "broken"):
            return x, lambda d, out: d
        if self.kind == "add":
            if not self.kids:
                return x, lambda d, out: d
            ys = [k.apply(x) for k in self.kids]
            return sum(y for y, _ in ys), lambda d, out: sum(b(d, out) for _, b in ys)
        if self.kind == "residual":
            y, b = self.kids[0].apply(x)
            return x + y, lambda d, out: d + b(d, out)
        tapes = []
        for k in self.kids:
            x, b = k.apply(x)
            tapes.append(b)

        def back(d, out):
            for b in reversed(tapes):
                d = b(d, out)
            return d
        return x, back


def seq_forward(model, X, is_train):
    back = []
    for layer in model.layers:
        X, b = layer(X, is_train)
        back.append(b)

    def backprop(dY):
        for b in reversed(back):
            dY = b(dY)
        return dY
    return X, backprop


def scale_forward(model, X, is_train):
    w = float(model.get_param("w")[0])

    def backprop(dY):
        model.inc_grad("w", numpy.asarray([(X * dY).sum()], dtype="f"))
        return dY * numpy.float32(w)
    return X * numpy.float32(w), backprop


def id_forward(model, X, is_train):
    return X, lambda dY: dY


def broken_forward(model, X, is_train):
    raise AssertionError("not to be called")


def make(kind, kids, w, i):
    import thinc.api as t
    node = Node(kind, kids, w)
    layers = [k.real for k in kids]
    if kind == "scale":
        node.real = t.Model(f"scale{i}", scale_forward, params={"w": numpy.asarray([w], dtype="f")}, attrs={"dropout_rate": 0.5, "other": i % 2})
        node.attrs = {"dropout_rate": 0.5, "other": i % 2}
    elif kind == "noop":
        node.real = t.noop()
    elif kind == "residual":
        node.real = t.residual(layers[0])
        node.kids = node.kids[:1]
    elif kind == "seq" or len(layers) < 2:
        node.kind = "seq"
        node.real = t.Model(f"seq{i}", seq_forward, layers=layers)
    else:
        # a sum of a sum would be merged with it
        node.real = t.chain(*layers) if kind == "chain" else t.add(t.noop(), t.noop())
        node.real.layers[:] = layers
    return node


def run_edit(case, run):
    import thinc.api as t
    r = numpy.random.RandomState(case["seed"] % 2 ** 32)
    instr.enable()
    pool, flights, count = [], [], [0]

    def weight():
        count[0] += 1
        return float(numpy.float32(r.choice([0.5, -1.0, 2.0, 1.5, -0.75]))), count[0]

    def add(kind, kids):
        node = make(kind, kids, *weight())
        pool.append(node)
        return node
    for kind, kids in reversed(case["tree"]):
        below = list(reversed(pool))
        add(kind, [below[k % len(below)] for k in kids] if kind in ("chain", "add", "seq", "residual") and below else [])
    top = pool[-1]
    pool.reverse()

    def sub(node, x):
        nodes = node.walk()
        return nodes[x % len(nodes)]
    for a, b, unset in case["refs"]:
        node = pool[a % len(pool)]
        target = None if unset else sub(node, b)
        node.real.set_ref("r", target and target.real)
        node.refs["r"] = target
    ids = {id(n): n.real.id for n in pool}

    def compare(what):
        by = {id(n.real): n for n in pool}
        for i, n in enumerate(pool):
            got = n.real.layers
            check([id(x) for x in got] == [id(k.real) for k in n.kids], "layers-differ",
                  lambda: f"{what}: node {i} ({n.kind}) has {[x.name for x in got]} instead of {[k.real.name for k in n.kids]}")
            check(sorted(n.real.ref_names) == sorted(n.refs), "refs-differ", lambda: f"{what}: node {i} has references {n.real.ref_names}")
            for k, v in n.refs.items():
                a = n.real.maybe_get_ref(k)
                check(a is (v and v.real), "refs-differ", lambda: f"{what}: reference {k} of node {i} is {a and a.name}, not {v and v.real.name}")
            check(n.real.id == ids[id(n)], "id-changed", what)
            check(n.hooks == n.want, "hook-calls", lambda: f"{what}: the hooks of node {i} ran {n.hooks} times instead of {n.want}")
            check(dict(n.real.attrs) == n.attrs, "attrs-differ", lambda: f"{what}: node {i} has {dict(n.real.attrs)} instead of {n.attrs}")
            if n.kind == "scale" or n.w is not None and "w" in n.real.param_names:
                w = float(n.real.get_param("w")[0])
                check(abs(w - n.w) <= 1e-4 * max(1, abs(n.w)), "weight-differs", lambda: f"{what}: node {i} has weight {w} instead of {n.w}")
                has = n.real.has_grad("w")
                g = float(n.real.get_grad("w")[0]) if has else None
                check(has == (n.g is not None), "gradient-differs", lambda: f"{what}: node {i} has gradient {g} instead of {n.g}")
                if has:
                    check(abs(g - n.g) <= 1e-3 * max(1, abs(n.g)), "gradient-differs", lambda: f"{what}: node {i} has gradient {g} instead of {n.g}")
        for n in [top, pool[len(pool) // 2]]:
            for order, want in (("bfs", n.walk()), ("dfs_pre", n.pre()), ("dfs_post", n.post())):
                got = [by.get(id(x)) for x in n.real.walk(order=order)]
                check([id(x) for x in got] == [id(x) for x in want], "walk-differs",
                      lambda: f"{what}: {order} visits {[x and x.real.name for x in got]} instead of {[x.real.name for x in want]}")

    def attempt(what, faults, call):
        """The call, first broken off at seeded instructions."""
        for at in faults:
            inj = instr.FailAt(int(10 ** (0.5 + 2.7 * at)), core.InjectedFault("injected"))
            try:
                with inj:
                    call()
            except core.InjectedFault:
                run.fault("broken-off")
                run.log.add(what, inj.fired)
            else:
                return
        call()
    compare("building")
    edited = False
    for j, (op, a, b, c, faults) in enumerate(case["ops"]):
        node, other = pool[a % len(pool)], pool[b % len(pool)]
        what = f"operation {j} {op}"
        special = any(len({id(k) for k in n.kids}) < len(n.kids) or n.refs for n in node.walk()) or flights
        size = sum(len(n.kids) for n in pool)
        reach = lambda x, y: y in x.walk()
        if op == "new":
            if len(pool) < 16:
                kind = KINDS[c % len(KINDS)]
                n = add(kind, [pool[a % len(pool)], pool[b % len(pool)]] if kind in ("chain", "add", "seq", "residual") else [])
                ids[id(n)] = n.real.id
        elif op in ("append", "insert", "assign"):
            if not reach(other, node) and node.kind in ("chain", "add", "seq") and size < 40:
                if op == "append":
                    node.real.layers.append(other.real)
                    node.kids.append(other)
                elif op == "insert":
                    i = c % (len(node.kids) + 1)
                    node.real.layers.insert(i, other.real)
                    node.kids.insert(i, other)
                elif node.kids:
                    i = c % len(node.kids)
                    node.real.layers[i] = other.real
                    node.kids[i] = other
        elif op == "pop":
            if node.kids and node.kind != "residual":
                i = c % len(node.kids)
                node.real.layers.pop(i)
                node.kids.pop(i)
        elif op == "remove":
            victim = sub(node, b)
            if any(n.kind == "residual" and victim in n.kids for n in node.walk()) or dangling(node):
                continue
            run.probe("remove-unset-ref", int(any(v is None for n in node.walk() for v in n.refs.values())))
            attempt(what, faults, lambda: node.real.remove_node(victim.real))
            for n in node.walk():
                n.kids = [k for k in n.kids if k is not victim]
            tree = node.walk()
            for n in tree:
                for k, v in n.refs.items():
                    if v is not None and v not in tree:
                        n.refs[k] = None
            edited |= bool(special)
        elif op == "replace":
            old = sub(node, b)
            new = other
            if c % 3 == 0:  # by something that contains it
                new = add("seq", [old])
                ids[id(new)] = new.real.id
            if any(reach(new, n) for n in node.walk() if old in n.kids and n is not old) or dangling(node):
                continue
            if reach(new, old):  # a second attempt would also replace it inside its replacement
                faults = []
            before = node.post()
            got = []
            attempt(what, faults, lambda: got.append(node.real.replace_node(old.real, new.real)))
            for n in before:
                if n is not old:
                    n.kids = [new if k is old else k for k in n.kids]
                    for k, v in n.refs.items():
                        if v is old:
                            n.refs[k] = new
            if not faults:
                check(got == [True], "replace-result", f"{what}: {got}")
            edited |= bool(special)
        elif op == "setref":
            target = sub(node, b)
            attempt(what, faults, lambda: node.real.set_ref("rs"[c % 2], target.real))
            node.refs["rs"[c % 2]] = target
        elif op == "badref":
            if not reach(node, other):
                try:
                    node.real.set_ref("rs"[c % 2], other.real)
                except ValueError:
                    pass
                else:
                    check(False, "foreign-reference", what)
        elif op == "unref":
            attempt(what, faults, lambda: node.real.set_ref("r", None))
            node.refs["r"] = None
        elif op == "wrap":
            if node.kids and node.kind != "residual":
                i = c % len(node.kids)
                n = add("seq", [node.kids[i]])
                ids[id(n)] = n.real.id
                node.real.layers[i] = n.real
                node.kids[i] = n
        elif op == "wrapall":
            if len(pool) < 12 and size < 25 and not dangling(node):
                wrappers = []

                def wrapper(model):
                    m = t.Model("w", seq_forward, layers=[model])
                    wrappers.append((m, model))
                    return m
                nodes = node.walk()
                got = t.wrap_model_recursive(node.real, wrapper)
                by = {id(n.real): n for n in nodes}
                made = {}
                for m, model in wrappers:
                    n = by[id(model)]
                    w = Node("seq", [n])
                    w.real = m
                    if m is got:
                        pool.append(w)
                        ids[id(w)] = m.id
                        check(n is node, "wrap-result", what)
                    elif n is not node:
                        check(id(n) not in made, "wrapped-twice", what)
                        made[id(n)] = w
                        pool.append(w)
                        ids[id(w)] = m.id
                check(pool[-1].real is got or any(p.real is got for p in pool), "wrap-result", what)
                check(set(made) == {id(n) for n in nodes if n is not node}, "wrapped-wrong", what)
                for n in nodes:
                    n.kids = [made[id(k)] for k in n.kids]
                    for k, v in n.refs.items():
                        # a node is replaced in every other node, not in itself
                        if v is not None and v is not n and id(v) in made:
                            n.refs[k] = made[id(v)]
                edited |= bool(special)
        elif op == "callbacks":
            if node.kind in ("noop", "broken"):
                new = "broken" if c % 2 and len([n for n in pool if n.kind == "broken"]) < 2 else "noop"
                node.real.replace_callbacks(broken_forward if new == "broken" else id_forward)
                node.kind, node.debug = new, 0
        elif op == "debug":
            t.with_debug(node.real, on_forward=lambda *args, n=node: hook(n))
            node.debug += 1
        elif op == "fwd":
            if node.ready() and len(flights) < 5 and size < 30:
                X = r.choice([-1.0, 0.5, 2.0, 1.0], (c % 3 + 1, 2)).astype("f")
                Y, bp = node.real.begin_update(X)
                y, tape = node.apply(X.astype("d"))
                check(numpy.allclose(Y, y, 1e-3, 1e-4), "output-differs", lambda: f"{what}: {Y.tolist()} instead of {y.tolist()}")
                flights.append((bp, tape, X.shape))
        elif op == "bwd":
            if flights:
                bp, tape, shape = flights.pop(b % len(flights))
                dY = r.choice([-1.0, 0.5, 1.0], shape).astype("f")
                dX = bp(dY)
                out = []
                dx = tape(dY.astype("d"), out)
                for n, g in out:
                    n.g = g if n.g is None else n.g + g
                check(numpy.allclose(dX, dx, 1e-3, 1e-4), "input-gradient-differs", lambda: f"{what}: {dX.tolist()} instead of {dx.tolist()}")
                if edited:
                    run.probe("backward-after-edit")
        elif op == "predict":
            if node.ready() and size < 30:
                X = r.choice([-1.0, 0.5, 2.0], (2, 2)).astype("f")
                Y, y = node.real.predict(X), node.apply(X.astype("d"))[0]
                check(numpy.allclose(Y, y, 1e-3, 1e-4), "output-differs", lambda: f"{what}: {Y.tolist()} instead of {y.tolist()}")
        elif op == "update":
            seen = []

            def opt(key, W, dW, **kwargs):
                seen.append(key)
                W = W - numpy.float32(0.01) * numpy.clip(dW, -2, 2)
                dW[...] = 0
                return W, dW
            node.real.finish_update(opt)
            want = sorted((n.real.id, "w") for n in node.walk() if n.g is not None)
            check(sorted(seen) == want, "update-differs", lambda: f"{what}: updated {sorted(seen)} instead of {want}")
            for n in node.walk():
                if n.g is not None:
                    n.w -= 0.01 * max(-2, min(2, n.g))
                    n.g = 0.0
        elif op == "copy":
            if not dangling(node):
                other = node.real.copy()
                names = lambda m: [[x.name, [y.name for y in x.layers], [(k, x.maybe_get_ref(k) and x.maybe_get_ref(k).name) for k in x.ref_names]]
                                   for x in m.walk()]
                check(names(other) == names(node.real), "copy-differs", what)
        elif op == "save":
            if not dangling(node):
                data = node.real.to_bytes()
                check(node.real.can_from_bytes(data), "not-loadable", what)
                node.real.from_bytes(data)
        elif op == "walks":
            its = [(node.real.walk(order=o), [n.real for n in w]) for o, w in (("bfs", node.walk()), ("dfs_pre", node.pre()), ("dfs_post", node.post()))]
            its += [(other.real.walk(order=o), [n.real for n in w]) for o, w in (("bfs", other.walk()), ("dfs_post", other.post()))]
            got = [[] for _ in its]
            live = list(range(len(its)))
            x = c
            while live:
                x = (x * 7 + 3) % 1009
                i = live[x % len(live)]
                try:
                    got[i].append(next(its[i][0] if hasattr(its[i][0], "__next__") else its.__setitem__(i, (iter(its[i][0]), its[i][1])) or its[i][0]))
                except StopIteration:
                    live.remove(i)
            for (_, want), g in zip(its, got):
                check([id(x) for x in g] == [id(x) for x in want], "walk-differs", lambda: f"{what}: {[x.name for x in g]}")
        elif op == "rate":
            rate, names = [0.0, 0.1, 0.5, 1.0][c % 4], [["dropout_rate"], ["other"], ["dropout_rate", "other"]][c // 4 % 3]
            if names == ["dropout_rate"]:
                t.set_dropout_rate(node.real, rate)
            else:
                t.set_dropout_rate(node.real, rate, attrs=names)
            for n in node.walk():
                n.attrs.update((k, rate) for k in names if k in n.attrs)
        elif op == "attrs":
            name = other.real.name
            values = {"dropout_rate": [0.0, None, 0.25, "x"][c % 4], "nothing": 1, "other": c % 3}
            t.change_attr_values(node.real, {name: values, "no such name": {"dropout_rate": 7}})
            for n in node.walk():
                if n.real.name == name:
                    n.attrs.update((k, v) for k, v in values.items() if k in n.attrs)
        elif op == "weight":
            if node.kind == "scale":
                node.w = float(weight()[0])
                node.real.set_param("w", numpy.asarray([node.w], dtype="f"))
        elif op == "grads":
            got = {k: float(g[0]) for k, (w, g) in node.real.get_gradients().items()}
            want = {(n.real.id, "w"): n.g for n in node.walk() if n.g is not None}
            check(set(got) == set(want), "gradients-differ", lambda: f"{what}: {got} instead of {want}")
        compare(what)
        run.steps += 1
        run.log.add(op, a, b, c)
        run.measure.add(core.derive(op, str([len(n.kids) for n in node.walk()])))
    run.nontrivial = edited


def hook(n):
    n.hooks += 1


def dangling(node):
    """References to nodes outside the subtree of the referring node; what happens to them is not specified."""
    return any(v is not None and v not in n.walk() for n in node.walk() for v in n.refs.values())


# ------------------------------------------------------------------ models of the grammar

def run_flight(case, run):
    """The batches in flight finish with the layers they started with."""
    import thinc.api as t
    m, seed = case["m"], case["seed"]
    model, twin = zoo.initialized(m, seed), zoo.initialized(m, seed)
    nodes, twins = list(model.walk()), list(twin.walk())
    fl = []
    for which in (model, twin):
        C.seed_all(seed)
        fl.append([which.begin_update(zoo.batch(m, seed + 10 * i, 2)) for i in range(case["n"])])
    how = case["how"]
    if how == "clear":
        for n in nodes:
            n.layers.clear()
    elif how == "callbacks":
        for n in nodes:
            n.replace_callbacks(broken_forward)
    elif how == "replace":
        for n in nodes[1:]:
            model.replace_node(n, t.noop())
    else:
        for n in nodes[1:]:
            if n in list(model.walk()):
                model.remove_node(n)
    for i in reversed(range(case["n"])):
        dY = zoo.grad_like(fl[1][i][0], seed + i)
        a, b = fl[0][i][1](dY), fl[1][i][1](dY)
        if not C.ints_in(m):
            C.eq(b, a, "in-flight-differs", f"input gradient of batch {i} after the tree was changed ({how})")
    for i, (x, y) in enumerate(zip(nodes, twins)):
        for p in y.param_names:
            check(x.has_grad(p) == y.has_grad(p), "in-flight-differs", lambda: f"gradient {p} of node {i} ({y.name})")
            if y.has_grad(p):
                C.eq(y.get_grad(p), x.get_grad(p), "in-flight-differs", f"gradient {p} of node {i} ({y.name})")
    run.nontrivial = True
    run.steps += 1
    run.measure.add(core.fp((how, tuple(sorted(zoo.kinds_in(m["spec"]))))))


def run_wrap(case, run):
    """Wrapping a whole model in transparent wrappers changes nothing and reaches each node once."""
    import thinc.api as t
    m, seed, how = case["m"], case["seed"], case["how"]
    if m.get("ops") or "tscript" in zoo.kinds_in(m["spec"]):
        m = {**m, "ops": None}
    model, twin = zoo.initialized(m, seed), zoo.initialized(m, seed)
    nodes = list(model.walk())
    direct = {id(n): 0 for n in nodes}
    calls = {id(n): 0 for n in nodes}
    wrapped = {}

    def forward(outer, X, is_train):
        return outer.layers[0](X, is_train)

    def count(n, X, is_train):
        calls[id(n)] += 1

    def wrapper(node):
        direct[id(node)] = direct.get(id(node), 0) + 1
        inplace = how == "debug" or how == "mixed" and node.id % 2 == 0
        if inplace:
            return t.with_debug(node, on_forward=count)
        w = t.Model("w", forward, layers=[node], dims={d: node.maybe_get_dim(d) for d in ("nO", "nI") if node.has_dim(d) is not False})
        wrapped.setdefault(id(node), []).append(w)
        return w
    # how often each node of the twin runs
    plain = {}
    for i, n in enumerate(twin.walk()):
        t.with_debug(n, on_forward=lambda *a, i=i: plain.__setitem__(i, plain.get(i, 0) + 1))
    got = t.wrap_model_recursive(model, wrapper)
    inplace = lambda n: how == "debug" or how == "mixed" and n.id % 2 == 0
    reached = [id(x) for x in got.walk()]
    check(len(set(reached)) == len(reached), "walk-differs", "a node is visited twice")
    for i, n in enumerate(nodes):
        check(id(n) in reached, "node-lost", f"node {i} ({n.name})")
        if not inplace(n):
            ws = [w for w in wrapped.get(id(n), []) if id(w) in reached]
            check(len(ws) == 1, "wrapped-wrong", f"node {i} ({n.name}) has {len(ws)} wrappers in the tree")
            # nobody but the wrapper applies it directly
            users = [x for x in got.walk() if any(y is n for y in x.layers)]
            check(users == ws, "wrapped-wrong", f"node {i} ({n.name}) is still used by {[u.name for u in users]}")
    C.seed_all(seed)
    a = got.predict(zoo.batch(m, seed, 3))
    C.seed_all(seed)
    b = twin.predict(zoo.batch(m, seed, 3))
    C.eq(b, a, "wrapped-differs", f"prediction of the wrapped model ({how})")
    for i, n in enumerate(nodes):
        if inplace(n):
            check(calls[id(n)] == plain.get(i, 0), "hook-calls", lambda: f"node {i} ({n.name}) ran {plain.get(i, 0)} times, its hook {calls[id(n)]} times")
    run.nontrivial = len(nodes) > 1
    run.steps += 1
    run.measure.add(core.fp((how, tuple(sorted(zoo.kinds_in(m["spec"]))))))


def run(case, run):
    {"edit": run_edit, "flight": run_flight, "wrap": run_wrap}[case["kind"]](case, run)


def shrink(case):
    if case["kind"] == "edit":
        for xs in core.shrink_list(case["ops"]):
            yield {**case, "ops": xs}
        for i, o in enumerate(case["ops"]):
            if o[4]:
                yield {**case, "ops": case["ops"][:i] + [[*o[:4], []]] + case["ops"][i + 1:]}
        yield from C.shrink_key_list(case, "refs")
        for i in range(1, len(case["tree"])):
            yield {**case, "tree": case["tree"][:i] + case["tree"][i + 1:]}
    else:
        yield from C.shrink_model(case)
