"""Seeded grammar of thinc models, batches and output gradients.

A model is described by a JSON spec; `build(spec)` makes the real thinc objects.  Specs are typed: every builder
knows its input and output layout, so that compositions are valid by construction."""
import numpy

F2, L, R, P, I1, I2, F3, T2, SP, SS, LL, TR, TP = "F2", "L", "R", "P", "I1", "I2", "F3", "T2", "SP", "SS", "LL", "TR", "TP"

DEFAULT = dict(torch=True, torch_rand=False, dropout=True, lstm=True, shared=True, window=True, premap=False, vanilla=0.2,
               depth=3)


# ------------------------------------------------------------------ generation of specs

ACTS = ["relu", "mish", "gelu", "swish", "hardswish", "hardswishm", "dish", "clipped", "reluk", "hardsigmoid",
        "hardtanh", "sigmoid", "linear", "maxout", "softmax", "softmax2", "multisoftmax", "resizable"]


class Gen:
    def __init__(self, rng, opts):
        self.r = rng
        self.o = {**DEFAULT, **opts}
        self.nshared = 0
        self.bn = False
        self.ops = "vanilla" if rng.random() < self.o["vanilla"] else None

    def width(self):
        return self.r.choice([1, 2, 3, 4, 4, 5, 8])

    # F2 -> F2
    def f2(self, nI, depth, nO=None):
        """Returns (spec, nO)."""
        r = self.r
        if nO is not None:
            return self._f2_fixed(nI, nO, depth)
        if depth <= 0 or r.random() < 0.25:
            return self.leaf(nI)
        kind = r.choice(["chain", "chain", "chain", "residual", "concat", "add", "clone", "wrap", "shared", "leaf"])
        if kind == "chain":
            n = r.randint(2, 3)
            kids, w = [], nI
            for _ in range(n):
                s, w = self.f2(w, depth - 1)
                kids.append(s)
            return {"k": "chain", "c": kids}, w
        if kind == "residual":
            s, _ = self.f2(nI, depth - 1, nO=nI)
            return {"k": "residual", "c": [s]}, nI
        if kind == "concat":
            kids, w = [], 0
            for _ in range(r.randint(2, 3)):
                s, wi = self.f2(nI, depth - 1)
                if s["k"] == "concat" and kids:  # the first operand may be one: it is extended
                    s = {"k": "nvtx", "c": [s]}
                kids.append(s)
                w += wi
            if w > 40:
                return self.leaf(nI)
            return {"k": "concat", "c": kids}, w
        if kind == "add":
            w = self.width()
            kids = []
            for _ in range(r.randint(2, 3)):
                s, _ = self.f2(nI, depth - 1, nO=w)
                if s["k"] == "add" and kids:
                    s = {"k": "nvtx", "c": [s]}
                kids.append(s)
            return {"k": "add", "c": kids}, w
        if kind == "clone":
            s = self.act(nI, nI)
            return {"k": "clone", "n": r.randint(1, 3), "c": [s]}, nI
        if kind == "wrap":
            s, w = self.f2(nI, depth - 1)
            return {"k": r.choice(["nvtx", "debug", "cpu", "array", "array2d"]), "c": [s]}, w
        if kind == "shared" and self.o["shared"]:
            self.nshared += 1
            i = self.nshared
            s = self.act(nI, nI)
            mid, _ = self.f2(nI, depth - 1, nO=nI)
            first, again = {"k": "def", "i": i, "c": [s]}, {"k": "ref", "i": i}
            how = r.choice(["chain", "chain_mid", "add", "concat"])
            if how == "chain":
                return {"k": "chain", "c": [first, again]}, nI
            if how == "chain_mid":
                return {"k": "chain", "c": [first, mid, again]}, nI
            if how == "add":
                return {"k": "add", "c": [first, again]}, nI
            return {"k": "concat", "c": [first, again]}, nI * 2
        return self.leaf(nI)

    def _f2_fixed(self, nI, nO, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.4:
            return self.act(nI, nO), nO
        s, w = self.f2(nI, depth - 1)
        return {"k": "chain", "c": [s, self.act(w, nO)]}, nO

    def act(self, nI, nO):
        r = self.r
        if self.o["torch"] and r.random() < 0.12:
            return self.torch(nI, nO)
        k = r.choice(ACTS)
        if k == "dish" and nI != nO:
            k = "swish"
        d = {"k": k, "nI": nI, "nO": nO}
        if k in ("multisoftmax",):
            a = r.randint(0, nO - 1) if nO > 1 else 0
            d["nOs"] = [a, nO - a] if a else [nO]
        elif k not in ("softmax", "softmax2", "linear", "sigmoid", "resizable"):
            if r.random() < 0.3:
                d["norm"] = True
            if self.o["dropout"] and r.random() < 0.25:
                d["drop"] = r.choice([0.2, 0.5])
        if k == "maxout":
            d["nP"] = r.choice([1, 2, 3])
        if k == "softmax2":
            d["temp"] = r.choice([1.0, 0.5, 2.0])
        return d

    def torch(self, nI, nO):
        arch = ["linear", "mlp", "tied"]
        if self.o["torch_rand"]:
            arch += ["drop"]
            if self.bn:
                arch += ["bn"]
        if self.r.random() < 0.2:
            return {"k": "torch", "arch": "mix", "nI": nI, "nO": nO, "v": 0}
        return {"k": self.r.choice(["torch", "torch", "torch", "tscript"]), "arch": self.r.choice(arch), "nI": nI, "nO": nO,
                "v": self.r.choice([1, 2, 3])}

    def leaf(self, nI):
        r = self.r
        x = r.random()
        if x < 0.55:
            nO = self.width()
            return self.act(nI, nO), nO
        c = ["layernorm", "logistic", "softmax_act", "sigmoid_act", "noop", "noop_layers", "custom"]
        if self.o["dropout"]:
            c += ["dropout", "dropout"]
        if self.o["window"] and nI <= 5:
            c.append("window")
        k = r.choice(c)
        if k == "dropout":
            return {"k": k, "rate": r.choice([0.0, 0.2, 0.5])}, nI
        if k == "window":
            w = 1 if self.ops else r.choice([1, 1, 2])
            return {"k": k, "w": w}, nI * (2 * w + 1)
        if k == "layernorm":
            return {"k": k, "nI": nI}, nI
        if k == "noop_layers":
            return {"k": k, "c": [self.act(nI, nI)]}, nI
        if k == "custom":
            return {"k": k, "drop": r.choice([None, 0.3]) if self.o["dropout"] else None}, nI
        return {"k": k}, nI

    # list -> list of floats
    def seq(self, nI, depth):
        r = self.r
        c = ["with_array", "with_array", "map_list", "with_ragged", "with_list", "convert_r", "convert_p", "dropout",
             "with_flatten2", "concat", "residual", "wrap"]
        if self.o["lstm"]:
            c += ["lstm", "lstm", "bilstm"]
            if self.o["torch"]:
                c.append("ptlstm")
        if depth > 0:
            c += ["seqchain"] * 4
        k = r.choice(c)
        if k == "with_array":
            s, w = self.f2(nI, min(depth, 2))
            return {"k": r.choice(["array", "array2d"]), "pad": r.choice([0, 0, 1, 2]), "c": [s]}, w
        if k == "map_list":
            s, w = self.f2(nI, 1)
            return {"k": "map_list", "c": [s]}, w
        if k == "with_flatten2":
            # list of lists is not available here; wrap a list layer over nested singletons
            s, w = self.f2(nI, 1)
            return {"k": "with_list", "c": [{"k": "map_list", "c": [s]}]}, w
        if k == "with_ragged":
            s, w = self.rag(nI)
            return {"k": "with_ragged", "c": [s]}, w
        if k == "concat":
            kids, w = [], 0
            for _ in range(r.randint(2, 3)):
                s, wi = self.seq(nI, 0)
                kids.append({"k": "nvtx", "c": [s]} if s["k"] == "concat" else s)
                w += wi
            return {"k": "concat", "c": kids}, w
        if k == "residual":
            return {"k": "residual", "c": [{"k": "array", "pad": 0, "c": [self.act(nI, nI)]}]}, nI
        if k == "wrap":
            s, w = self.seq(nI, 0)
            return {"k": r.choice(["nvtx", "debug", "cpu"]), "c": [s]}, w
        if k == "with_list":
            s, w = self.seq(nI, depth - 1)
            return {"k": "with_list", "c": [s]}, w
        if k == "convert_r":
            s, w = self.rag(nI)
            return {"k": "chain", "c": [{"k": "list2ragged"}, s, {"k": "ragged2list"}]}, w
        if k == "convert_p":
            s, w = self.pad(nI)
            return {"k": "chain", "c": [{"k": "list2padded"}, s, {"k": "padded2list"}]}, w
        if k == "dropout":
            if not self.o["dropout"]:
                return {"k": "noop"}, nI
            return {"k": "dropout", "rate": r.choice([0.2, 0.5])}, nI
        if k in ("lstm", "ptlstm", "bilstm"):
            s, w = self.pad(nI, k)
            return {"k": "with_padded", "c": [s]}, w
        a, w = self.seq(nI, depth - 1)
        b, w = self.seq(w, depth - 1)
        return {"k": "chain", "c": [a, b]}, w

    def rag(self, nI):
        r = self.r
        k = r.choice(["pattn", "pattn2", "pattn2k", "array", "array2d", "dropout", "chain", "residual", "concat", "window", "with_padded"])
        if k == "concat":
            kids, w = [], 0
            for _ in range(r.randint(2, 3)):
                s, wi = self.rag(nI)
                kids.append({"k": "nvtx", "c": [s]} if s["k"] == "concat" else s)
                w += wi
            if w <= 40:
                return {"k": "concat", "c": kids}, w
            k = "array"
        if k == "window" and (not self.o["window"] or nI > 5 or self.ops):  # the generic operations take no lengths here
            k = "array2d"
        if k == "window":
            w = r.choice([1, 1, 2])
            return {"k": "window", "w": w}, nI * (2 * w + 1)
        if k == "with_padded":
            s, w = self.pad(nI)
            return {"k": "with_padded", "c": [s]}, w
        if k == "array2d":
            s, w = self.f2(nI, 1)
            return {"k": "array2d", "pad": 0, "c": [s]}, w
        if k == "pattn":
            return {"k": "pattn", "nO": nI}, nI
        if k == "pattn2":
            return {"k": "pattn2", "nO": nI}, nI
        if k == "pattn2k":
            return {"k": "pattn2", "nO": nI, "c": [self.act(nI, nI)]}, nI
        if k == "dropout" and self.o["dropout"]:
            return {"k": "dropout", "rate": 0.3}, nI
        if k == "chain":
            a, w = self.rag(nI)
            b, w = self.rag(w)
            return {"k": "chain", "c": [a, b]}, w
        if k == "residual":
            return {"k": "residual", "c": [{"k": "array", "pad": 0, "c": [self.act(nI, nI)]}]}, nI
        s, w = self.f2(nI, 1)
        return {"k": "array", "pad": r.choice([0, 1]), "c": [s]}, w

    def pad(self, nI, kind=None):
        r = self.r
        c = ["array", "dropout", "residual", "reshape"]
        if self.o["lstm"]:
            c += ["lstm", "lstm", "bilstm"] + (["ptlstm"] if self.o["torch"] else [])
        k = kind or r.choice(c)
        if k == "lstm":
            bi = r.random() < 0.3
            nO = r.choice([2, 4]) if bi else r.choice([1, 2, 3])
            return {"k": "lstm", "nI": nI, "nO": nO, "bi": bi, "depth": r.choice([1, 1, 2]),
                    "drop": r.choice([0.0, 0.3]) if self.o["dropout"] else 0.0}, nO
        if k == "bilstm":
            nO = r.choice([1, 2])
            return {"k": "bidi", "c": [{"k": "lstm", "nI": nI, "nO": nO, "bi": False, "depth": 1, "drop": 0.0}]}, nO * 2
        if k == "ptlstm":
            nO = r.choice([2, 4])
            return {"k": "ptlstm", "nI": nI, "nO": nO, "bi": r.random() < 0.3, "depth": r.choice([1, 2])}, nO
        if k == "dropout" and self.o["dropout"]:
            return {"k": "dropout", "rate": 0.3}, nI
        if k == "reshape":  # with_array passes a Padded on as a 3d array
            nO = self.width()
            return {"k": "array", "pad": 0, "c": [{"k": "reshape", "c": [self.act(nI, nO)]}]}, nO
        if k == "residual":
            return {"k": "residual", "c": [{"k": "array2d", "pad": 0, "c": [self.act(nI, nI)]}]}, nI
        s, w = self.f2(nI, 1)
        return {"k": "array2d", "pad": r.choice([0, 1]), "c": [s]}, w

    # ints -> F2
    def ints(self, top=False):
        """Returns (spec, input type, nO, vocabulary)."""
        r = self.r
        pre = ["premap"] if self.o["premap"] else []
        nO, nV = self.width(), r.choice([3, 5, 8])
        drop = r.choice([None, None, 0.3]) if self.o["dropout"] else None
        k = r.choice(["embed", "embed", "hash", "hash", "remap", "remap2", "uniq", "getcol", "hashcat"] + pre)
        emb = {"k": "embed", "nO": nO, "nV": nV, "drop": drop}
        hsh = {"k": "hash", "nO": nO, "nV": nV, "seed": r.randint(0, 99), "drop": drop}
        if k == "embed":
            return emb, I1, nO, nV
        if k == "hash":
            return hsh, I1, nO, 50
        if k == "remap":
            return {"k": "chain", "c": [{"k": r.choice(["remap2"] + (["remap"] if top else []) + pre), "n": 20, "m": nV}, {"k": "flat1"},
                                        emb]}, I1, nO, 25
        if k in ("remap2", "premap"):
            return {"k": "chain", "c": [{"k": k, "n": 20, "m": nV, "col": 0}, {"k": "flat1"}, emb]}, I2, nO, 25
        if k == "uniq":
            return {"k": "uniq", "col": 0, "c": [{**hsh, "col": 0, "drop": drop}]}, I2, nO, 6
        if k == "getcol":
            return {**r.choice([emb, hsh]), "col": r.choice([0, 1])}, I2, nO, nV
        a = {**hsh, "col": 0}
        b = {**hsh, "col": 1, "seed": hsh["seed"] + 1}
        return {"k": "concat", "c": [a, b]}, I2, nO * 2, 50

    def model(self, kinds=None):
        """A whole model: {"spec", "tin", "nI", "nV"}."""
        r = self.r
        d = self.o["depth"]
        kinds = kinds or ["f2", "f2", "f2", "f2", "seq", "seq", "seq", "seq2f", "seq2f", "ints", "ints", "intseq", "siamese",
                          "f3", "sparse", "strings", "rag", "pad", "getitem", "ll", "tuple", "floatsitem", "intlist", "pools", "flat1l",
                          "tr", "tp"] + (["bilin"] if self.o["torch"] else [])
        k = r.choice(kinds)
        nI = self.width()
        self.bn = k == "f2"
        if k == "f2":
            s, _ = self.f2(nI, d)
            return {"spec": s, "tin": F2, "nI": nI}
        if k == "seq":
            s, _ = self.seq(nI, d - 1)
            return {"spec": s, "tin": L, "nI": nI}
        if k == "seq2f":
            s, w = self.seq(nI, d - 2)
            t, _ = self.f2(w, 1)
            red = r.choice(["rfirst", "rlast", "rmax", "rmean", "rsum", "list2array"])
            if red == "list2array":
                return {"spec": {"k": "chain", "c": [s, {"k": "list2array"}, t]}, "tin": L, "nI": nI}
            return {"spec": {"k": "chain", "c": [s, {"k": "list2ragged"}, {"k": red}, t]}, "tin": L, "nI": nI}
        if k == "ints":
            s, tin, w, nV = self.ints(top=True)
            t, _ = self.f2(w, d - 1)
            return {"spec": {"k": "chain", "c": [s, t]}, "tin": tin, "nI": 2, "nV": nV}
        if k == "intseq":
            s, tin, w, nV = self.ints()
            t, _ = self.f2(w, 1)
            return {"spec": {"k": "chain", "c": [{"k": "array", "pad": 0, "c": [{"k": "chain", "c": [s, t]}]}]}, "tin": "L" + tin,
                    "nI": 2, "nV": nV}
        if k == "intlist":
            s, tin, w, nV = self.ints()
            return {"spec": {"k": "chain", "c": [{"k": "list2ragged"}, {"k": "array", "pad": 0, "c": [s]}, self.rag(w)[0],
                                                 {"k": r.choice(["rsum", "rmean", "rmax"])}]}, "tin": "L" + tin, "nI": 2, "nV": nV}
        if k == "siamese":
            s = self.act(nI, self.width())
            while s["k"] in ("torch", "tscript", "resizable") or s.get("norm") or s.get("drop"):
                s = self.act(nI, self.width())
            return {"spec": {"k": "siamese", "c": [s], "nI": s["nO"]}, "tin": T2, "nI": nI}
        if k == "f3":
            s = self.act(nI, nI)
            while s["k"] in ("torch", "tscript"):
                s = self.act(nI, nI)
            return {"spec": {"k": r.choice(["f3", "reshape"]), "c": [s]}, "tin": F3, "nI": nI}
        if k == "sparse":
            return {"spec": {"k": r.choice(["sparse", "sparse2"]), "nO": r.choice([1, 2, 3]), "length": r.choice([8, 64])},
                    "tin": SP, "nI": 1}
        if k == "strings":
            return {"spec": {"k": "chain", "c": [{"k": "strings"}, {"k": "array", "pad": 0, "c": [
                {"k": "hash", "nO": nI, "nV": 8, "seed": 3, "col": 0, "drop": None}]}]}, "tin": SS, "nI": nI}
        if k == "rag":
            s, _ = self.rag(nI)
            return {"spec": r.choice([s, {"k": "with_ragged", "c": [s]}, {"k": "with_list", "c": [self.seq(nI, 0)[0]]}]),
                    "tin": R, "nI": nI}
        if k == "pad":
            s, _ = self.pad(nI)
            return {"spec": r.choice([s, {"k": "with_padded", "c": [s]}, {"k": "with_ragged", "c": [self.rag(nI)[0]]},
                                      {"k": "with_list", "c": [self.seq(nI, 0)[0]]}]), "tin": P, "nI": nI}
        if k == "getitem":
            a, _ = self.f2(nI, 1)
            b, _ = self.f2(nI, 1)
            return {"spec": {"k": "chain", "c": [{"k": "getitem", "i": 0, "c": [a]}, {"k": "getitem", "i": 1, "c": [b]}]},
                    "tin": T2, "nI": nI}
        if k == "tuple":
            w = self.width()
            a, _ = self.f2(nI, 1, nO=w)
            b, _ = self.f2(nI, 1, nO=w)
            c = [{"k": "tuplify", "c": [a, b]}]
            if r.random() < 0.6:
                c.append({"k": "cauchy", "nI": w})
            else:
                c.append({"k": "getitem", "i": r.choice([0, 1]), "c": [self.act(w, w)]})
            return {"spec": {"k": "chain", "c": c}, "tin": F2, "nI": nI}
        if k in ("pools", "flat1l"):  # several poolings of the same sequences
            kids, w = [], nI
            for red in r.sample(["rfirst", "rlast", "rmax", "rmean", "rsum"], r.randint(2, 3)):
                kids.append({"k": red})
            many, w = {"k": "concat", "c": kids}, nI * len(kids)
            if r.random() < 0.5:  # add() needs layers that know their width
                w = self.width()
                kids = [{"k": "chain", "c": [x, self.act(nI, w)]} for x in kids]
                many = {"k": "add", "c": kids}
            tin = r.choice([L, R])
            if tin == L:
                many = {**many, "c": [{"k": "chain", "c": [{"k": "list2ragged"}, x]} for x in kids]}
            if k == "pools":
                return {"spec": {"k": "chain", "c": [many, self.f2(w, 1)[0]]}, "tin": tin, "nI": nI}
            if tin == R:
                many = {"k": "chain", "c": [{"k": "list2ragged"}, many]}
            return {"spec": {"k": "flatten1", "c": [{"k": "chain", "c": [many, self.f2(w, 1)[0]]}]}, "tin": LL, "nI": nI}
        if k == "tr":
            return {"spec": {"k": "with_ragged", "c": [self.rag(nI)[0]]}, "tin": TR, "nI": nI}
        if k == "tp":
            return {"spec": {"k": "with_padded", "c": [self.pad(nI)[0]]}, "tin": TP, "nI": nI}
        if k == "bilin":
            w = self.width()
            return {"spec": {"k": "chain", "c": [{"k": "torch", "arch": "bilin", "nI": nI, "nO": w, "v": r.choice([1, 2, 3])},
                                                 self.f2(w, 1)[0]]}, "tin": T2, "nI": nI}
        if k == "ll":
            s, _ = self.seq(nI, 1)
            return {"spec": {"k": "flatten2", "c": [s]}, "tin": LL, "nI": nI}
        # floatsitem: take columns of the input
        w = r.randint(1, nI)
        a = self.act(w, w)
        return {"spec": {"k": "chain", "c": [{"k": "cols", "n": w}, a, self.f2(w, 1)[0]]}, "tin": F2, "nI": nI}


def gen(rng, opts=None, kinds=None):
    g = Gen(rng, opts or {})
    m = g.model(kinds)
    if g.ops:
        m["ops"] = g.ops
    return m


def kinds_in(spec):
    out = {spec["k"]}
    for c in spec.get("c", ()):
        out |= kinds_in(c)
    return out


def walk_spec(spec):
    yield spec
    for c in spec.get("c", ()):
        yield from walk_spec(c)


def has_dropout(spec):
    return any(s.get("drop") or (s["k"] == "dropout" and s["rate"]) or s.get("arch") == "drop" for s in walk_spec(spec))


def has_bn(spec):
    return any(s.get("arch") == "bn" for s in walk_spec(spec))


def has_torch(spec):
    return bool(kinds_in(spec) & {"torch", "tscript", "ptlstm"})


# ------------------------------------------------------------------ building

def _torch_module(s):
    import torch
    nn = torch.nn
    nI, nO = s["nI"], s["nO"]
    if s["arch"] == "linear":
        return nn.Linear(nI, nO)
    if s["arch"] == "mlp":
        return nn.Sequential(nn.Linear(nI, 3), nn.Tanh(), nn.Linear(3, nO))
    if s["arch"] == "drop":
        return nn.Sequential(nn.Linear(nI, 3), nn.Dropout(0.5), nn.Linear(3, nO))
    if s["arch"] == "bn":
        return nn.Sequential(nn.Linear(nI, 3), nn.BatchNorm1d(3), nn.Linear(3, nO))
    if s["arch"] == "tied":
        lin = nn.Linear(nI, nI)
        return nn.Sequential(lin, nn.Tanh(), lin, nn.Linear(nI, nO))
    if s["arch"] == "bilin":
        return nn.Bilinear(nI, nI, nO)
    raise ValueError(s)


def amp_on_cpu():
    """Mixed precision is only offered with a GPU; the scaling itself runs anywhere."""
    import thinc.compat
    import thinc.shims.pytorch
    import thinc.shims.pytorch_grad_scaler
    for mod in (thinc.compat, thinc.shims.pytorch, thinc.shims.pytorch_grad_scaler):
        if hasattr(mod, "has_torch_amp"):
            mod.has_torch_amp = True


_OnCpu = []


def cpu_scaler(s):
    import torch
    from thinc.api import PyTorchGradScaler
    if not _OnCpu:
        class OnCpu(PyTorchGradScaler):
            def scale(self, *args, **kwargs):
                torch.Tensor.is_cuda = property(lambda self: True)
                try:
                    return super().scale(*args, **kwargs)
                finally:
                    del torch.Tensor.is_cuda
        _OnCpu.append(OnCpu)
    return _OnCpu[0](enabled=s["enabled"], init_scale=s["init"], backoff_factor=s["backoff"], growth_factor=s["growth"],
                     growth_interval=s["interval"])


def _resize(layer, new_nO):
    from thinc.layers.resizable import resize_linear_weighted
    return resize_linear_weighted(layer, new_nO)


def build(spec, shared=None):
    import thinc.api as t
    import thinc.layers as tl
    from thinc.layers.array_getitem import floats_getitem, ints_getitem
    if shared is None:
        shared = {}
    k = spec["k"]
    c = spec.get("c", [])
    if k == "def":
        m = shared[spec["i"]] = build(c[0], shared)
        return m
    if k == "ref":
        return shared[spec["i"]]
    kids = [build(x, shared) for x in c]
    one = kids[0] if kids else None
    if k == "chain":
        return t.chain(*kids) if len(kids) > 1 else kids[0]
    if k == "residual":
        return t.residual(one)
    if k == "concat":
        return t.concatenate(*kids)
    if k == "add":
        return t.add(*kids) if len(kids) > 1 else kids[0]
    if k == "clone":
        return t.clone(one, spec["n"])
    if k == "nvtx":
        return t.with_nvtx_range(one)
    if k == "debug":
        return t.with_debug(one)
    if k == "cpu":
        return t.with_cpu(one, one.ops)
    if k == "array":
        return t.with_array(one, pad=spec.get("pad", 0))
    if k == "array2d":
        return tl.with_array2d(one, pad=spec.get("pad", 0))
    if k == "map_list":
        return tl.map_list(one)
    if k == "with_ragged":
        return t.with_ragged(one)
    if k == "with_list":
        return t.with_list(one)
    if k == "with_padded":
        return t.with_padded(one)
    if k == "reshape":
        return tl.with_reshape(one)
    if k == "flatten1":
        return t.with_flatten(one)
    if k == "flatten2":
        return tl.with_flatten_v2(one)
    if k == "getitem":
        return t.with_getitem(spec["i"], one)
    if k == "tuplify":
        return t.tuplify(*kids)
    if k == "cauchy":
        return t.CauchySimilarity(spec["nI"])
    if k == "siamese":
        return t.siamese(one, t.CauchySimilarity(spec["nI"]))
    if k == "f3":
        return _f3(one)
    if k == "cols":
        return floats_getitem((slice(None), slice(0, spec["n"])))
    if k in ("list2ragged", "ragged2list", "list2padded", "padded2list", "list2array"):
        return getattr(tl, k)()
    if k in ("rfirst", "rlast", "rmax", "rmean", "rsum"):
        return getattr(tl, "reduce_" + k[1:])()
    if k == "pattn":
        return t.ParametricAttention(spec["nO"])
    if k == "pattn2":
        return tl.ParametricAttention_v2(nO=spec["nO"], key_transform=one)
    if k == "lstm":
        return t.LSTM(spec["nO"], spec["nI"], bi=spec["bi"], depth=spec["depth"], dropout=spec["drop"])
    if k == "bidi":
        return t.bidirectional(one)
    if k == "ptlstm":
        return t.PyTorchLSTM(spec["nO"], spec["nI"], bi=spec["bi"], depth=spec["depth"]).layers[0]
    if k == "dropout":
        return t.Dropout(spec["rate"])
    if k == "window":
        return t.expand_window(spec["w"])
    if k == "custom":
        return _custom(spec)
    if k == "layernorm":
        return t.LayerNorm(spec["nI"])
    if k == "logistic":
        return t.Logistic()
    if k == "softmax_act":
        return t.softmax_activation()
    if k == "sigmoid_act":
        return t.sigmoid_activation()
    if k == "noop":
        return t.noop()
    if k == "noop_layers":
        return t.noop(one)
    if k == "torch" and spec["arch"] == "mix":
        return _mix(spec)
    if k in ("torch", "tscript"):
        import torch
        mod = _torch_module(spec)
        if k == "tscript":
            w = tl.TorchScriptWrapper_v1(torch.jit.script(mod))
        elif spec.get("mp"):
            w = [t.PyTorchWrapper_v2, t.PyTorchWrapper_v3][spec["v"] % 2](mod, mixed_precision=True, grad_scaler=cpu_scaler(spec["mp"]))
        else:
            w = {1: t.PyTorchWrapper, 2: t.PyTorchWrapper_v2, 3: t.PyTorchWrapper_v3}[spec["v"]](mod)
        if "i" in spec:  # other nodes share the wrapped module
            shared[spec["i"]] = w
        w.set_dim("nI", spec["nI"])
        w.set_dim("nO", spec["nO"])
        return w
    if k == "tshare":
        from thinc.model import Model
        of = shared[spec["i"]]
        w = Model("tshare", of._func, attrs=dict(of.attrs), shims=[of.shims[0]], dims={"nI": None, "nO": None})
        w.set_dim("nI", spec["nI"])
        w.set_dim("nO", spec["nO"])
        return w
    if k == "embed":
        return t.Embed(spec["nO"], spec["nV"], column=spec.get("col"), dropout=spec["drop"])
    if k == "hash":
        return t.HashEmbed(spec["nO"], spec["nV"], seed=spec["seed"], column=spec.get("col"), dropout=spec["drop"])
    if k == "uniq":
        return t.uniqued(one, column=spec["col"])
    if k == "remap":
        return t.remap_ids({i: i % spec["m"] for i in range(spec["n"])}, default=0)
    if k == "remap2":
        return tl.remap_ids_v2({i: i % spec["m"] for i in range(spec["n"])}, default=0, column=spec.get("col"))
    if k == "premap":
        return tl.premap_ids({i: i % spec["m"] for i in range(spec["n"])}, default=0, column=spec.get("col"))
    if k == "flat1":
        return ints_getitem((slice(None), 0))
    if k == "sparse":
        return t.SparseLinear(spec["nO"], spec["length"])
    if k == "sparse2":
        return tl.SparseLinear_v2(spec["nO"], spec["length"])
    if k == "strings":
        return t.strings2arrays()
    return _act(t, spec)


def _mix(spec):
    """A user's layer with everything a node can have: a parameter, two wrapped modules and a sublayer."""
    import thinc.api as t
    import torch
    nI, nO = spec["nI"], spec["nO"]
    return t.Model("mix", _mix_forward, init=_mix_init, dims={"nI": nI, "nO": nO}, params={"b": None}, layers=[t.Linear(nO, nI)],
                   shims=[t.PyTorchShim(torch.nn.Linear(nI, nI)), t.PyTorchShim(torch.nn.Linear(nI, nO))])


def _mix_init(model, X=None, Y=None):
    model.layers[0].initialize(X)
    model.set_param("b", model.ops.alloc1f(model.get_dim("nO")))


def _mix_forward(model, X, is_train):
    from thinc.types import ArgsKwargs
    from thinc.util import torch2xp, xp2torch

    def wrapped(shim, X):
        Xt = xp2torch(X, requires_grad=is_train, device=shim.device)
        Yt, back = shim(ArgsKwargs(args=(Xt,), kwargs={}), is_train)

        def backprop(dY):
            d = back(ArgsKwargs(args=((Yt,),), kwargs={"grad_tensors": xp2torch(dY, device=shim.device)}))
            return torch2xp(d.args[0])
        return torch2xp(Yt), backprop

    one, two = model.shims
    H, back_one = wrapped(one, X)
    Y1, back_two = wrapped(two, H)
    Y2, back_layer = model.layers[0](X, is_train)
    Y = Y1 + Y2 + model.get_param("b")

    def backprop(dY):
        model.inc_grad("b", dY.sum(axis=0))
        dX = back_layer(dY)
        return dX + back_one(back_two(dY))
    return Y, backprop


def _custom(spec):
    """A user's layer, Y = X * b + c: it has its own attributes, and reuses one array for all its gradients."""
    import thinc.api as t
    return t.Model("custom", _custom_forward, init=_custom_init, dims={"nI": None, "nO": None},
                   params={"b": None, "c": None}, attrs={"dropout_rate": spec.get("drop"), "note": {"seen": [1, 2]}, "limits": (0, None)})


def _custom_init(model, X=None, Y=None):
    if X is not None:
        X = getattr(X, "dataXd", X)
        X = X[0] if isinstance(X, list) else X
        model.set_dim("nI", X.shape[-1])
        model.set_dim("nO", X.shape[-1])
    for name in ("b", "c"):
        model.set_param(name, model.ops.alloc1f(model.get_dim("nI")))


def _custom_forward(model, X, is_train):
    b, c = model.get_param("b"), model.get_param("c")
    rate = model.attrs["dropout_rate"] if is_train else None
    mask = model.ops.get_dropout_mask(X.shape, rate)
    Y = (X * b + c) * mask

    def backprop(dY):
        dY = dY * mask
        buf = model.ops.alloc1f(dY.shape[-1])
        buf += dY.sum(axis=0)
        model.inc_grad("c", buf)
        buf[:] = (dY * X).sum(axis=0)
        model.inc_grad("b", buf)
        buf[:] = 1e6
        return dY * b
    return Y, backprop


def _f3(layer):
    """Dense layer over the last axis of a 3d array, by way of Padded data."""
    import thinc.api as t
    import thinc.layers as tl
    return t.with_padded(tl.with_array2d(layer))


def _act(t, s):
    k, nI, nO = s["k"], s["nI"], s["nO"]
    kw = {}
    if s.get("norm"):
        kw["normalize"] = True
    if s.get("drop"):
        kw["dropout"] = s["drop"]
    simple = {"relu": t.Relu, "mish": t.Mish, "gelu": t.Gelu, "swish": t.Swish, "hardswish": t.HardSwish,
              "hardswishm": t.HardSwishMobilenet, "dish": t.Dish, "clipped": t.ClippedLinear, "reluk": t.ReluK,
              "hardsigmoid": t.HardSigmoid, "hardtanh": t.HardTanh}
    if k in simple:
        return simple[k](nO, nI, **kw)
    if k == "maxout":
        return t.Maxout(nO, nI, s["nP"], **kw)
    if k == "linear":
        return t.Linear(nO, nI)
    if k == "sigmoid":
        return t.Sigmoid(nO, nI)
    if k == "softmax":
        return t.Softmax(nO, nI)
    if k == "softmax2":
        return t.Softmax_v2(nO, nI, temperature=s["temp"])
    if k == "multisoftmax":
        return t.MultiSoftmax(tuple(s["nOs"]), nI)
    if k == "resizable":
        return t.resizable(t.Linear(nO, nI), _resize)
    raise ValueError(s)


# ------------------------------------------------------------------ data

def npr(seed):
    return numpy.random.RandomState(seed % (2 ** 32))


def batch(m, seed, size=None):
    """A batch of input for model description m; item count `size` or drawn from the seed."""
    r = npr(seed)
    n = size if size is not None else int(r.choice([1, 2, 3, 4, 6]))
    if n < 2 and has_bn(m["spec"]):
        n = 2
    X = _batch(m["tin"], m["nI"], m.get("nV", 5), r, n)
    if m["tin"] in (L, "LI1", "LI2") and n > 1 and seed % 7 == 0:
        # The same array several times in one batch.
        X[int(seed // 7) % (n - 1) + 1] = X[0]
    return X


def _floats(r, *shape):
    return r.uniform(-1, 1, shape).astype("f")


def _ints1(r, nV, n):
    return numpy.asarray(r.randint(0, nV, n), dtype="i8" if False else "uint64").astype("int64")


def _lens(r, n):
    return [int(x) for x in r.choice([1, 1, 2, 3, 4], n)]


def _batch(tin, nI, nV, r, n):
    from thinc.types import Padded, Ragged
    if tin == F2:
        return _floats(r, n, nI)
    if tin == L:
        return [_floats(r, k, nI) for k in _lens(r, n)]
    if tin == R:
        lens = _lens(r, n)
        return Ragged(_floats(r, sum(lens), nI), numpy.asarray(lens, dtype="i"))
    if tin == P:
        import thinc.api
        return thinc.api.NumpyOps().list2padded([_floats(r, k, nI) for k in _lens(r, n)])
    if tin == F3:
        return _floats(r, int(r.choice([1, 2, 3])), n, nI)
    if tin == I1:
        return _ints1(r, nV, n)
    if tin == I2:
        return r.randint(0, nV, (n, nI)).astype("int64")
    if tin == "LI1":
        return [_ints1(r, nV, k) for k in _lens(r, n)]
    if tin == "LI2":
        return [r.randint(0, nV, (k, nI)).astype("int64") for k in _lens(r, n)]
    if tin == TR:
        x = _batch(R, nI, nV, r, n)
        return (x.dataXd, x.lengths)
    if tin == TP:
        x = _batch(P, nI, nV, r, n)
        return (x.data, x.size_at_t, x.lengths, x.indices)
    if tin == T2:
        return (_floats(r, n, nI), _floats(r, n, nI))
    if tin == SP:
        lens = _lens(r, n)
        return (r.randint(0, 1000, sum(lens)).astype("uint64"), _floats(r, sum(lens)), numpy.asarray(lens, dtype="i"))
    if tin == SS:
        words = ["a", "bb", "cat", "dög", "e"]
        return [[words[int(i)] for i in r.randint(0, len(words), k)] for k in _lens(r, n)]
    if tin == LL:
        return [[_floats(r, k, nI) for k in _lens(r, int(r.choice([1, 2])))] for _ in range(n)]
    raise ValueError(tin)


LAYOUTS = ["part", "F", "step", "rows"]


def layout(x, kind, guards=None, fill=77):
    """The same values as a part of a larger array, in Fortran order, or as every second element."""
    if kind == "F":
        return numpy.array(x, order="F")
    if kind in ("part", "mixed"):
        big = numpy.full([k + 2 for k in x.shape], fill, x.dtype)
        out = big[tuple(slice(1, -1) for _ in x.shape)]
    elif kind == "rows":  # contiguous itself, with other rows before and after it
        big = numpy.full((x.shape[0] + 4,) + x.shape[1:], fill, x.dtype)
        out = big[2:-2]
    else:
        big = numpy.full([k * 2 for k in x.shape], fill, x.dtype)
        out = big[tuple(slice(None, None, 2) for _ in x.shape)]
    out[...] = x
    if guards is not None:
        guards.append((big, out))
    return out


def spilled(guards):
    """Were elements of the larger arrays written that the operand does not have?"""
    for big, out in guards:
        mine = numpy.zeros(big.shape, bool)
        off = (out.__array_interface__["data"][0] - big.__array_interface__["data"][0]) // big.itemsize
        at = numpy.full(out.shape, off)
        for ax, st in enumerate(out.strides):
            at = at + (numpy.arange(out.shape[ax]) * (st // big.itemsize)).reshape([-1 if a == ax else 1 for a in range(out.ndim)])
        mine.reshape(-1)[at.reshape(-1)] = True
        if (big[~mine] != 77).any():
            return True
    return False


def relay(x, r, guards):
    """The same batch or gradient in float arrays of seeded layouts."""
    from thinc.types import Padded, Ragged
    if isinstance(x, numpy.ndarray):
        return layout(x, r.choice(LAYOUTS), guards) if x.size and x.dtype.kind == "f" else x
    if isinstance(x, (list, tuple)):
        return type(x)(relay(y, r, guards) for y in x)
    if isinstance(x, Ragged):
        return Ragged(relay(x.dataXd, r, guards), x.lengths)
    if isinstance(x, Padded):
        return Padded(relay(x.data, r, guards), x.size_at_t, x.lengths, x.indices)
    return x


def grad_like(Y, seed):
    return _grad_like(Y, npr(seed))


def _grad_like(Y, r):
    from thinc.types import Padded, Ragged
    if isinstance(Y, Ragged):
        return Ragged(_grad_like(Y.data, r), Y.lengths.copy())
    if isinstance(Y, Padded):
        d = _grad_like(Y.data, r)
        for t in range(d.shape[0]):
            d[t, int(Y.size_at_t[t]):] = 0
        return Padded(d, Y.size_at_t.copy(), Y.lengths.copy(), Y.indices.copy())
    if isinstance(Y, tuple) and len(Y) == 4:
        Y = _grad_like(Padded(*Y), r)
        return (Y.data, Y.size_at_t, Y.lengths, Y.indices)
    if isinstance(Y, tuple) and len(Y) == 2 and Y[1].dtype.kind == "i":
        return (_grad_like(Y[0], r), Y[1].copy())
    if isinstance(Y, (list, tuple)):
        return type(Y)(_grad_like(y, r) for y in Y)
    if Y.dtype.kind == "f":
        return r.uniform(-1, 1, Y.shape).astype("f")
    return numpy.zeros_like(Y)


def initialized(m, seed):
    """A freshly built and initialised model with random parameters everywhere; a pure function of (m, seed)."""
    import thinc.api
    thinc.api.fix_random_seed(seed % (2 ** 31))
    with backend(m.get("ops")):
        model = build(m["spec"])
    model.initialize(X=batch(m, seed + 1, 3))
    randomize(model, seed + 2)
    return model


class backend:
    """Build layers on another ops object: "vanilla" is the pure-Python implementation that GPU backends share."""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        import thinc.api
        from thinc.backends import set_current_ops
        from thinc.backends.ops import Ops
        self.old = thinc.api.get_current_ops()
        if self.name == "vanilla":
            set_current_ops(Ops(numpy))
        elif self.name == "mps":
            set_current_ops(thinc.api.get_ops("mps"))

    def __exit__(self, *exc):
        from thinc.backends import set_current_ops
        if self.name is not None:
            set_current_ops(self.old)
        return False


def randomize(model, seed):
    r = npr(seed)
    for node in model.walk():
        for name in node.param_names:
            if node.has_param(name):
                p = node.get_param(name)
                node.set_param(name, r.uniform(-0.7, 0.7, p.shape).astype(p.dtype))


# ------------------------------------------------------------------ comparing

def flat(obj, path=""):
    """(path, value) leaves of any value that flows through a model."""
    from thinc.types import ArgsKwargs, Padded, Ragged
    if isinstance(obj, Ragged):
        return flat(obj.data, path + ".data") + flat(obj.lengths, path + ".lengths")
    if isinstance(obj, Padded):
        return (flat(obj.data, path + ".data") + flat(obj.size_at_t, path + ".size_at_t")
                + flat(obj.lengths, path + ".lengths") + flat(obj.indices, path + ".indices"))
    if isinstance(obj, (list, tuple)):
        out = [(path + ".len", len(obj))]
        for i, x in enumerate(obj):
            out += flat(x, f"{path}[{i}]")
        return out
    if isinstance(obj, dict):
        out = [(path + ".keys", sorted(map(str, obj)))]
        for key in sorted(obj, key=str):
            out += flat(obj[key], f"{path}[{key}]")
        return out
    return [(path, obj)]


def snapshot(obj):
    return [(p, v.copy() if isinstance(v, numpy.ndarray) else v) for p, v in flat(obj)]


def diff(a, b, rtol=0.0, atol=0.0):
    """None if the two values (or snapshots) agree, else a description of the first difference."""
    fa = a if _is_snap(a) else flat(a)
    fb = b if _is_snap(b) else flat(b)
    if [p for p, _ in fa] != [p for p, _ in fb]:
        return f"structure differs: {[p for p, _ in fa][:8]} vs {[p for p, _ in fb][:8]}"
    for (p, x), (_, y) in zip(fa, fb):
        if isinstance(x, numpy.ndarray) or isinstance(y, numpy.ndarray):
            if not (isinstance(x, numpy.ndarray) and isinstance(y, numpy.ndarray)):
                return f"{p}: {type(x).__name__} vs {type(y).__name__}"
            if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
                return f"{p}: {x.dtype}{x.shape} vs {y.dtype}{y.shape}"
            if x.dtype.kind == "f":
                ok = numpy.array_equal(x, y, equal_nan=True) if rtol == atol == 0 else _close(x, y, rtol, atol)
            else:
                ok = numpy.array_equal(x, y)
            if not ok:
                with numpy.errstate(all="ignore"):
                    d = float(numpy.nanmax(numpy.abs(x.astype("f8") - y.astype("f8")))) if x.size else 0.0
                return f"{p}: arrays {x.dtype}{x.shape} differ by up to {d:.3g}"
        elif x is not y and x != y:
            return f"{p}: {x!r} vs {y!r}"[:300]
    return None


def _close(x, y, rtol, atol):
    if not numpy.array_equal(numpy.isfinite(x), numpy.isfinite(y)):
        return False
    if not x.size:
        return True
    fin = numpy.isfinite(x)
    xf, yf = x[fin].astype("f8"), y[fin].astype("f8")
    if not xf.size:
        return True
    scale = max(float(numpy.abs(xf).max()), float(numpy.abs(yf).max()), 0.0)
    return float(numpy.abs(xf - yf).max()) <= atol + rtol * scale


def _is_snap(x):
    return isinstance(x, list) and all(isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], str) for e in x)


RTOL, ATOL = 2e-4, 2e-6


def close(a, b):
    return diff(a, b, RTOL, ATOL)


def exact(a, b):
    return diff(a, b)


# ------------------------------------------------------------------ state of a model

def shim_state(shim):
    """name -> array of parameters, gradients and buffers of a wrapped module."""
    out = {}
    mod = shim._model
    for name, p in mod.named_parameters():
        out["p:" + name] = p.detach().numpy().copy()
        out["g:" + name] = None if p.grad is None else p.grad.detach().numpy().copy()
    for name, b in mod.named_buffers():
        out["b:" + name] = b.detach().numpy().copy()
    out["training"] = bool(mod.training)
    return out


def params(model):
    out = {}
    for i, node in enumerate(model.walk()):
        for name in node.param_names:
            if node.has_param(name):
                out[f"{i}:{node.name}:{name}"] = node.get_param(name).copy()
        for j, shim in enumerate(node.shims):
            for k, v in shim_state(shim).items():
                if k[:2] in ("p:", "b:"):
                    out[f"{i}:{node.name}:shim{j}:{k}"] = v
    return out


def grads(model, zero_is_none=True):
    """Accumulated gradients; an all-zero gradient counts as none."""
    out = {}
    for i, node in enumerate(model.walk()):
        for name in node.param_names:
            if node.has_grad(name):
                g = node.get_grad(name)
                if not zero_is_none or g.any():
                    out[f"{i}:{node.name}:{name}"] = g.copy()
        for j, shim in enumerate(node.shims):
            for k, v in shim_state(shim).items():
                if k[:2] == "g:" and v is not None and (not zero_is_none or v.any()):
                    out[f"{i}:{node.name}:shim{j}:{k}"] = v
    return out


def full_state(model):
    """Everything a reader must not change: one dict of comparable values."""
    out = {}
    for i, node in enumerate(model.walk()):
        out[f"{i}:name"] = node.name
        out[f"{i}:id"] = node.id
        out[f"{i}:dims"] = {k: node.maybe_get_dim(k) for k in node.dim_names}
        out[f"{i}:attrs"] = {k: _attr(v) for k, v in node.attrs.items()}
        out[f"{i}:refs"] = {k: (node.get_ref(k).id if node.has_ref(k) else None) for k in node.ref_names}
        out[f"{i}:layers"] = [x.id for x in node.layers]
        out[f"{i}:ops"] = type(node.ops).__name__
        out[f"{i}:func"] = id(node._func)
        for name in node.param_names:
            out[f"{i}:p:{name}"] = node.get_param(name).copy() if node.has_param(name) else None
            out[f"{i}:g:{name}"] = node.get_grad(name).copy() if node.has_grad(name) else None
        for j, shim in enumerate(node.shims):
            out[f"{i}:shim{j}"] = shim_state(shim)
            out[f"{i}:shim{j}:cfg"] = repr(shim.cfg)
    return out


def _attr(v):
    if isinstance(v, numpy.ndarray):
        return v.copy()
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    if isinstance(v, dict):
        return sorted((repr(a), repr(b)) for a, b in v.items())
    if callable(v) or isinstance(v, (slice, tuple)):
        return repr(v)[:60]
    return type(v).__name__


def size_of(spec):
    return 1 + sum(size_of(c) for c in spec.get("c", ()))


# ------------------------------------------------------------------ shrinking

def shrink_spec(m):
    """Simpler model descriptions with the same input type (validity is checked by building)."""
    def subs(s):
        for i, c in enumerate(s.get("c", ())):
            yield c
            for x in subs(c):
                yield x
        if s["k"] == "chain":
            for i in range(len(s["c"])):
                rest = s["c"][:i] + s["c"][i + 1:]
                if rest:
                    yield {**s, "c": rest}
        for i, c in enumerate(s.get("c", ())):
            for x in subs(c):
                yield {**s, "c": s["c"][:i] + [x] + s["c"][i + 1:]}
        for key in ("drop", "norm", "pad"):
            if s.get(key):
                yield {**s, key: None if key == "drop" else 0}
    seen = set()
    out = []
    for s in subs(m["spec"]):
        key = repr(s)
        if key not in seen:
            seen.add(key)
            out.append({**m, "spec": s})
    out.sort(key=lambda x: size_of(x["spec"]))
    return out


def buildable(m):
    """Does the description give a working model (used by the shrinker only)?"""
    try:
        model = initialized(m, 1)
        Y, bp = model.begin_update(batch(m, 2, 2))
        bp(grad_like(Y, 3))
        return True
    except Exception:
        return False
