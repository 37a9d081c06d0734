"""Models in the other formats the generator reads (NNet, JSON, exported PyTorch), with references of their own."""

from __future__ import annotations

import json
import random

import numpy as np

class Infeasible(Exception):
    pass


ACT_NP = {
    "linear": lambda x: x, "relu": lambda x: np.maximum(x, 0), "sigmoid": lambda x: 1 / (1 + np.exp(-x)),
    "tanh": np.tanh, "leaky_relu": lambda x: np.where(x > 0, x, 0.2 * x), "softmax": lambda x: np.exp(x - x.max()) / np.exp(x - x.max()).sum(),
}


# --------------------------------------------------------------------------- NNet
def sample_nnet(rng: random.Random):
    sizes = [rng.choice([1, 2, 3, 5, 8])] + [rng.choice([1, 2, 3, 5, 9, 17]) for _ in range(rng.choice([1, 1, 2, 3, 4, 6]))]
    return {"fmt": "nnet", "sizes": sizes, "wseed": rng.randrange(1 << 31), "normalize": rng.random() < 0.5,
            "comments": rng.choice([0, 1, 3]), "style": rng.choice(["%.6g", "%.9e", "%r"])}


def nnet_data(r):
    g = np.random.default_rng(r["wseed"])
    sz = r["sizes"]
    W = [g.uniform(-1, 1, (b, a)) / a ** 0.5 for a, b in zip(sz, sz[1:])]
    B = [g.uniform(-1, 1, b) for b in sz[1:]]
    lo = g.uniform(-1, -0.2, sz[0])
    hi = g.uniform(0.2, 1, sz[0])
    mean = g.uniform(-0.5, 0.5, sz[0] + 1)
    rng_ = g.uniform(0.5, 3, sz[0] + 1)
    q = lambda a: np.vectorize(lambda v: float(r["style"] % float(v)))(a)  # noqa: E731  what the text says
    return [q(w) for w in W], [q(b) for b in B], q(lo), q(hi), q(mean), q(rng_)


def nnet_text(r):
    W, B, lo, hi, mean, rg = nnet_data(r)
    sz = r["sizes"]
    f = lambda a: "".join(r["style"] % float(v) + "," for v in a)  # noqa: E731
    L = ["// Neural network, line %d" % i for i in range(r["comments"])]
    L.append(f"{len(sz) - 1},{sz[0]},{sz[-1]},{max(sz)},")
    L.append("".join(f"{s}," for s in sz))
    L.append("0,")
    L += [f(lo), f(hi), f(mean), f(rg)]
    for w, b in zip(W, B):
        L += [f(row) for row in w]
        L += [f([v]) for v in b]
    return "\n".join(L) + "\n"


def nnet_ref(r, X):
    W, B, lo, hi, mean, rg = nnet_data(r)
    out = []
    for x in X:
        v = x.ravel().astype(np.float64)
        if r["normalize"]:
            v = (np.clip(v, lo, hi) - mean[:-1]) / rg[:-1]
        for i, (w, b) in enumerate(zip(W, B)):
            v = w @ v + b
            if i < len(W) - 1:
                v = np.maximum(v, 0)
        if r["normalize"]:
            v = v * rg[-1] + mean[-1]
        out.append(v)
    return np.stack(out)


# --------------------------------------------------------------------------- JSON (from Keras)
def sample_json(rng: random.Random):
    r = {"fmt": "json", "wseed": rng.randrange(1 << 31), "last": rng.random() < 0.5, "dtype": "float64" if rng.random() < 0.15 else "float32"}
    ops = []
    if rng.random() < 0.35:
        r["input"] = [rng.choice([1, 3, 6])]
    else:
        r["input"] = [rng.choice([1, 2, 2, 3]), rng.choice([3, 4, 5, 6]), rng.choice([3, 4, 5, 6])]
        for _ in range(rng.randint(1, 8)):
            k = rng.choice(["conv", "conv", "conv", "avg", "max", "pad", "merge", "merge", "concat", "bn", "dropout"])
            o = {"op": k, "src": [rng.randrange(64), rng.randrange(64), rng.randrange(64)]}
            if k == "conv":
                o.update(k=[rng.choice([1, 2, 3]), rng.choice([1, 2, 3])], s=rng.choice([1, 1, 1, 2]), f=rng.choice([1, 2, 2, 2, 4]),
                         pad=rng.choice(["same", "same", "valid"]), d=rng.choice([1, 1, 1, 2]), act=rng.choice(["linear", "relu", "sigmoid", "tanh", "leaky_relu"]))
                if o["d"] > 1:
                    o["s"] = 1
            elif k in ("avg", "max"):
                o.update(k=rng.choice([2, 3]), s=rng.choice([1, 2]), pad=rng.choice(["same", "valid"]))
            elif k == "pad":
                o["p"] = rng.choice([1, [1, 0], [[0, 1], [2, 1]]])
            elif k == "merge":
                o["f"] = rng.choice(["Add", "Multiply", "Subtract", "Maximum", "Minimum", "Average"])
                o["n"] = 2 if o["f"] == "Subtract" else rng.choice([2, 2, 3])
            ops.append(o)
        if rng.random() < 0.7:
            ops.append({"op": "flatten"})
    if len(r["input"]) == 1 or (ops and ops[-1]["op"] == "flatten"):
        n = rng.randint(1, 4)
        for i in range(n):
            ops.append({"op": "dense", "m": rng.choice([1, 2, 5, 10]),
                        "act": rng.choice(["linear", "relu", "sigmoid", "tanh", "leaky_relu"] + (["softmax"] * 2 if i == n - 1 else []))})
            if rng.random() < 0.15:
                ops.append({"op": "dropout", "src": [0, 0, 0]})
    r["ops"] = ops
    return r


def sample_json_odd(rng: random.Random):
    """A JSON description with attributes and layers the importer may refuse."""
    r = sample_json(rng)
    r["odd"] = True
    for o in r["ops"]:
        if o["op"] in ("conv", "avg", "max") and rng.random() < 0.4:
            o["wide"] = rng.choice(["s", "k"] if o["op"] != "conv" else ["s", "d"])
    for _ in range(rng.choice([0, 1, 1])):
        r["ops"].insert(rng.randint(0, len(r["ops"])), {"op": rng.choice(["norm", "norm", "side", "odd"]), "src": [rng.randrange(64)] * 3, "v": rng.randrange(64)})
    return r


def _same(n, k, s, d):
    o = -(-n // s)
    t = max((o - 1) * s + (k - 1) * d + 1 - n, 0)
    return o, t // 2, t - t // 2


class JsonModel:
    """Builds the description and evaluates it, both from the recipe."""

    def __init__(self, r):
        import torch
        self.t = torch
        self.r = r
        self.g = np.random.default_rng(r["wseed"])
        self.dt = np.float64 if r["dtype"] == "float64" else np.float32
        self.layers, self.steps, self.used = [], [], []
        shp = list(r["input"])
        self.shapes = [shp]
        self.side = None  # index of a second output
        self.chain = 0  # index of the last layer of the main path
        self.add("InputLayer", [], shp, lambda: None)
        for o in r["ops"]:
            getattr(self, "op_" + o["op"])(o)
        if len(self.layers) == 1 or self.chain == 0:
            self.op_dense({"m": 2, "act": "relu"}) if len(shp) == 1 else self.op_max({"k": 1, "s": 1, "pad": "valid"})

    def add(self, cls, prev, shape, fn, **cfg):
        i = len(self.layers)
        ins = [[None, *self.shapes[p]] for p in prev]
        c = {"name": f"{cls.lower()}_{i}", "dtype": self.r["dtype"], "idx": i, "size": int(np.prod(shape)),
             "input_shape": ins[0] if len(ins) == 1 else (ins or [None, *shape]), "output_shape": [None, *shape], "prev_layer_idx": list(prev)}
        extra = {k: cfg.pop(k) for k in ("weights", "biases", "beta", "gamma", "moving_mean", "moving_var") if k in cfg}
        c.update(cfg)
        self.layers.append({"class_name": cls, "config": c, **{k: np.asarray(v).tolist() for k, v in extra.items()}})
        if i:
            self.shapes.append(list(shape))
        self.steps.append((prev, fn))
        self.used.append(cls)
        self.chain = i
        return i

    def rnd(self, *s, lo=-1, hi=1):
        return self.g.uniform(lo, hi, s).astype(self.dt)

    def T(self, a):
        return self.t.tensor(np.asarray(a, dtype=np.float64))

    def op_conv(self, o):
        c, h, w = self.shapes[self.chain]
        (kh, kw), s, d, f = o["k"], o["s"], o["d"], o["f"]
        s2, d2 = s + (o.get("wide") == "s"), d + (o.get("wide") == "d")
        if o["pad"] == "same":
            oh, pt, pb = _same(h, kh, s, d)
            ow, pl, pr = _same(w, kw, s2, d2)
        else:
            pt = pb = pl = pr = 0
            oh, ow = (h - (kh - 1) * d - 1) // s + 1, (w - (kw - 1) * d2 - 1) // s2 + 1
        if oh < 1 or ow < 1:
            return
        W, B = self.rnd(kh, kw, c, f) / self.dt((c * kh * kw) ** 0.5), self.rnd(f)
        F = self.t.nn.functional
        Wt, Bt = self.T(W.transpose(3, 2, 0, 1)), self.T(B)
        act = ACT_NP[o["act"]]
        self.add("Conv2D", [self.chain], [f, oh, ow],
                 lambda x: self.T(act(F.conv2d(F.pad(x, (pl, pr, pt, pb)), Wt, Bt, stride=(s, s2), dilation=(d, d2)).numpy())),
                 padding=o["pad"], strides=[s, s2], kernel_size=[kh, kw], dilation_rate=[d, d2], filters=f, activation=o["act"],
                 weights=np.moveaxis(W, 2, 0), biases=B)

    def _pool(self, o, cls):
        c, h, w = self.shapes[self.chain]
        k, s = o["k"], o["s"]
        k2, s2 = k + (o.get("wide") == "k"), s + (o.get("wide") == "s")
        if o["pad"] == "same":
            oh, pt, pb = _same(h, k, s, 1)
            ow, pl, pr = _same(w, k2, s2, 1)
        else:
            pt = pb = pl = pr = 0
            oh, ow = (h - k) // s + 1, (w - k2) // s2 + 1
        if oh < 1 or ow < 1 or k > h or k2 > w or k > w:
            return
        F = self.t.nn.functional

        def fn(x):
            if cls == "MaxPooling2D":
                return F.max_pool2d(F.pad(x, (pl, pr, pt, pb), value=-float("inf")), (k, k2), (s, s2))
            num = F.avg_pool2d(F.pad(x, (pl, pr, pt, pb)), (k, k2), (s, s2), divisor_override=1)
            return num / F.avg_pool2d(F.pad(self.t.ones_like(x), (pl, pr, pt, pb)), (k, k2), (s, s2), divisor_override=1)

        self.add(cls, [self.chain], [c, oh, ow], fn, padding=o["pad"], strides=[s, s2], pool_size=[k, k2])

    def op_norm(self, o):
        """Layers whose name says normalization, each along the last axis of what Keras sees, or by constants."""
        shape = self.shapes[self.chain]
        n = shape[0] if len(shape) == 1 or self.r["last"] else shape[2]
        ax = 1 if len(shape) == 1 or self.r["last"] else 3
        ga, be = self.rnd(n, lo=0.5, hi=1.5), self.rnd(n)
        k = [self.T(a).reshape([1] + [-1 if i == ax else 1 for i in range(1, len(shape) + 1)]) for a in (ga, be)]
        if o["v"] % 3 == 0:
            self.add("Normalization", [self.chain], shape, lambda x: (x - k[1]) / k[0].sqrt(), axis=-1, mean=be.tolist(), variance=ga.tolist())
        elif o["v"] % 3 == 1:
            self.add("UnitNormalization", [self.chain], shape, lambda x: x / (x * x).sum(ax, keepdim=True).clamp(min=1e-12).sqrt(), axis=-1)
        else:
            self.add("LayerNormalization", [self.chain], shape, lambda x: (x - x.mean(ax, keepdim=True)) / (x.var(ax, keepdim=True, unbiased=False) + 1e-3).sqrt()
                     * k[0] + k[1], axis=-1, epsilon=1e-3, gamma=ga, beta=be)

    def op_odd(self, o):
        F, shape = self.t.nn.functional, self.shapes[self.chain]
        cls, fn, cfg = [("ReLU", F.relu, {}), ("Softmax", lambda x: F.softmax(x, 1 if len(shape) == 1 or self.r["last"] else 3), {"axis": -1}),
                        ("Activation", self.t.tanh, {"activation": "tanh"}), ("LeakyReLU", lambda x: F.leaky_relu(x, 0.3), {"alpha": 0.3}),
                        ("GaussianNoise", lambda x: x, {"stddev": 0.1}), ("ELU", F.elu, {"alpha": 1.0})][o["v"] % 6]
        self.add(cls, [self.chain], shape, fn, **cfg)

    def op_side(self, o):
        """A second output."""
        chain = self.chain
        self.chain = o["src"][0] % len(self.layers)
        if len(self.shapes[self.chain]) == 1:
            self.op_dense({"m": 2, "act": "relu"})
        else:
            self.op_max({"k": 1, "s": 1, "pad": "valid"})
        self.side = len(self.layers) - 1
        self.chain = chain

    def op_avg(self, o):
        self._pool(o, "AveragePooling2D")

    def op_max(self, o):
        self._pool(o, "MaxPooling2D")

    def op_pad(self, o):
        c, h, w = self.shapes[self.chain]
        p = o["p"]
        if isinstance(p, int):
            q = [[p, p], [p, p]]
        elif isinstance(p[0], int):
            q = [[p[0]] * 2, [p[1]] * 2]
        else:
            q = p
        F = self.t.nn.functional
        # what Keras writes in its own description is always a pair of pairs
        self.add("ZeroPadding2D", [self.chain], [c, h + sum(q[0]), w + sum(q[1])],
                 lambda x: F.pad(x, (*q[1], *q[0])), padding=q if isinstance(p, int) else p)

    def _peers(self, o, same):
        base = self.shapes[self.chain]
        ok = [i for i, s in enumerate(self.shapes) if len(s) == 3 and (s == base if same else s[1:] == base[1:])
              and self.layers[i]["class_name"] not in ("Dropout",)]
        return ok

    def op_merge(self, o):
        ok = self._peers(o, True)
        xs = [self.chain] + [ok[o["src"][j] % len(ok)] for j in range(o["n"] - 1)]
        if len(set(xs)) < len(xs):
            return
        xs = sorted(xs) if o["f"] != "Subtract" else xs
        f = {"Add": lambda *a: sum(a), "Multiply": lambda *a: self.t.stack(a).prod(0), "Subtract": lambda a, b: a - b,
             "Maximum": lambda *a: self.t.stack(a).amax(0), "Minimum": lambda *a: self.t.stack(a).amin(0),
             "Average": lambda *a: self.t.stack(a).mean(0)}[o["f"]]
        self.add(o["f"], xs, self.shapes[self.chain], f)

    def op_concat(self, o):
        ok = self._peers(o, False)
        xs = [self.chain, ok[o["src"][0] % len(ok)]]
        if len(set(xs)) < 2 or sum(self.shapes[i][0] for i in xs) > 12:
            return
        s = self.shapes[self.chain]
        self.add("Concatenate", xs, [sum(self.shapes[i][0] for i in xs), *s[1:]], lambda *a: self.t.cat(a, 1),
                 axis=3 if self.r["last"] else 1)

    def op_bn(self, o):
        c = self.shapes[self.chain][0]
        ga, be, mu, va = self.rnd(c, lo=0.5, hi=1.5), self.rnd(c), self.rnd(c), self.rnd(c, lo=0.3, hi=1.5)
        k = [self.T(a).reshape(1, -1, 1, 1) for a in (ga, be, mu, va)]
        self.add("BatchNormalization", [self.chain], self.shapes[self.chain],
                 lambda x: (x - k[2]) / (k[3] + 1e-3).sqrt() * k[0] + k[1], epsilon=1e-3, gamma=ga, beta=be, moving_mean=mu, moving_var=va)

    def op_dropout(self, o):
        if self.chain == 0:
            return
        self.add("Dropout", [self.chain], self.shapes[self.chain], lambda x: x, rate=0.5)

    def op_flatten(self, o):
        s = self.shapes[self.chain]
        if len(s) != 3:
            return
        last = self.r["last"]
        self.add("Flatten", [self.chain], [int(np.prod(s))],
                 lambda x: (x.permute(0, 2, 3, 1) if last else x).reshape(1, -1))

    def op_dense(self, o):
        s = self.shapes[self.chain]
        if len(s) != 1:
            return
        W, B = self.rnd(s[0], o["m"]) / self.dt(s[0] ** 0.5), self.rnd(o["m"])
        act = ACT_NP[o["act"]]
        self.add("Dense", [self.chain], [o["m"]], lambda x: self.T(act((x.numpy().reshape(1, -1) @ W.astype(np.float64)) + B)),
                 units=o["m"], activation=o["act"], weights=W.reshape(1, s[0], o["m"])[:, :, :, None].transpose(3, 0, 1, 2)
                 if False else np.expand_dims(np.moveaxis(W[:, :, None], 2, 0), 0), biases=B)

    def text(self):
        if self.side and (self.layers[self.chain]["class_name"] == "Dropout" or any(self.chain in prev for prev, _ in self.steps)):
            raise Infeasible("an output the description does not tell from an inner layer")
        return json.dumps({"class_name": "Functional", "config": {
            "name": "m", "data_format": "channels_last" if self.r["last"] else "channels_first", "layers": self.layers}})

    def ref(self, X):
        """Keras reads an image as its data format says; results come out the same way."""
        out = []
        s = self.shapes[0]
        for x in X:
            v = np.asarray(x, dtype=np.float64).ravel()
            if len(s) == 3:
                v = v.reshape(1, s[1], s[2], s[0]).transpose(0, 3, 1, 2) if self.r["last"] else v.reshape(1, *s)
            else:
                v = v.reshape(1, -1)
            vals = [self.T(v)]
            for prev, fn in self.steps[1:]:
                vals.append(fn(*[vals[p] for p in prev]))
            y = vals[self.chain].numpy()
            if y.ndim == 4 and self.r["last"]:
                y = y.transpose(0, 2, 3, 1)
            out.append(y.ravel())
        return np.stack(out)


# --------------------------------------------------------------------------- PyTorch
def odd_ops():
    """Functions of one tensor that an importer may not know: to be refused, not dropped or taken for another."""
    import torch
    F = torch.nn.functional
    return {
        "sigmoid": torch.sigmoid, "tanh": torch.tanh, "softmax": lambda x: F.softmax(x, 1), "log_softmax": lambda x: F.log_softmax(x, 1),
        "leaky_relu": F.leaky_relu, "relu6": F.relu6, "elu": F.elu, "gelu": F.gelu, "silu": F.silu, "celu": F.celu, "selu": F.selu,
        "hardtanh": F.hardtanh, "hardswish": F.hardswish, "hardsigmoid": F.hardsigmoid, "softplus": F.softplus, "threshold": lambda x: F.threshold(x, 0.1, 0.2),
        "rrelu": F.rrelu, "square": lambda x: x * x, "minus": lambda x: x.relu() - x, "times": lambda x: x * 2.0, "plus": lambda x: x + 1.0,
        "ratio": lambda x: x / 3.0, "addalpha": lambda x: torch.add(x.relu(), x, alpha=2), "neg": lambda x: -x, "exp": torch.exp, "abs": torch.abs,
        "mean": lambda x: x.mean(1, keepdim=True), "sum": lambda x: x.sum(1, keepdim=True), "amax": lambda x: x.amax(-1, keepdim=True),
        "maximum": lambda x: torch.maximum(x, x.relu() - 0.1 if False else x.tanh()), "permute": lambda x: x.permute(0, 2, 3, 1),
        "transpose": lambda x: x.transpose(-1, -2), "flip": lambda x: x.flip(-1), "roll": lambda x: x.roll(1, -1), "slice": lambda x: x[:, :1],
        "upsample": lambda x: F.interpolate(x, scale_factor=2), "bilinear": lambda x: F.interpolate(x, scale_factor=2, mode="bilinear"),
        "pad": lambda x: F.pad(x, (1, 0, 1, 1)), "padreflect": lambda x: F.pad(x, (1, 1, 1, 1), mode="reflect"),
        "avgpool": lambda x: F.avg_pool2d(x, 2), "avgpoolpad": lambda x: F.avg_pool2d(x, 3, 1, 1), "gap2": lambda x: F.adaptive_avg_pool2d(x, 2),
        "adaptmax": lambda x: F.adaptive_max_pool2d(x, 1), "pooldil": lambda x: F.max_pool2d(x, 2, 2, dilation=2), "poolwide": lambda x: F.max_pool2d(x, (2, 3), 2),
        "poolstride": lambda x: F.max_pool2d(x, 2, (1, 2)), "poolceil": lambda x: F.max_pool2d(x, 2, 2, ceil_mode=True), "pooltall": lambda x: F.max_pool2d(x, (3, 2), 2),
        "layernorm": lambda x: F.layer_norm(x, x.shape[-1:]), "instnorm": lambda x: F.instance_norm(x), "groupnorm": lambda x: F.group_norm(x, 1),
        "lrn": lambda x: F.local_response_norm(x, 2), "normalize": F.normalize, "cumsum": lambda x: x.cumsum(-1), "sort": lambda x: x.sort(-1)[0],
        "shuffle": lambda x: F.channel_shuffle(x, 2), "catself": lambda x: torch.cat([x, x], -1), "catrow": lambda x: torch.cat([x, x.relu()], 2),
        "view": lambda x: x.view(1, -1), "reshape": lambda x: x.reshape(1, x.shape[1], -1, 1), "unsqueeze": lambda x: x.unsqueeze(1), "clone": torch.clone,
        "clampt": lambda x: torch.clamp(x, min=x.mean()), "clampmin": lambda x: torch.clamp_min(x, 0.1), "clampmax": lambda x: torch.clamp_max(x, 0.1),
        "doubled": lambda x: x + x, "where": lambda x: torch.where(x > 0, x, x * 0.5), "round": torch.round, "dropout2d": lambda x: F.dropout2d(x, training=False),
        "unread": lambda x: (torch.relu(x), x.clamp(-0.3, 0.3))[1], "unreadpool": lambda x: (F.max_pool2d(x, 2), F.relu(x))[1],
        "inplace": lambda x: F.relu_(x.clamp(-0.5, 0.5)), "inplacelost": lambda x: (lambda y: (F.relu_(y), y)[1])(x.clamp(-0.5, 0.5)),
        "inplacekept": lambda x: (lambda y: F.relu_(y) + y)(x.clamp(-0.5, 0.5)), "mulinplace": lambda x: (lambda y: (y.mul_(2), y)[1])(x.clamp(-0.5, 0.5)),
        "flatten2": lambda x: torch.flatten(x, 2), "flatten0": lambda x: torch.flatten(x), "stdconv": lambda x: F.conv2d(x, torch.ones(1, x.shape[1], 1, 1, dtype=x.dtype)),
        "matmul": lambda x: torch.matmul(x, x.transpose(-1, -2)), "tuple": lambda x: (x.relu(), x.clamp(-1, 0.2)),
    }


def sample_torch_odd(rng: random.Random):
    """A PyTorch program with functions the importer may refuse."""
    r = sample_torch(rng)
    names = sorted(odd_ops())
    for _ in range(rng.choice([1, 1, 2])):
        at = rng.choice([len(r["ops"]), len(r["ops"]), rng.randint(0, len(r["ops"]))])
        r["ops"].insert(at, {"op": "odd", "k": rng.choice(names)})
    for o in r["ops"]:
        if o["op"] == "conv" and rng.random() < 0.3:
            o["wide"] = rng.choice(["s", "d", "p", "same", "reflect"])
    r["odd"] = True
    return r


def sample_torch(rng: random.Random):
    r = {"fmt": "torch", "wseed": rng.randrange(1 << 31)}
    ops = []
    if rng.random() < 0.35:
        r["input"] = [rng.choice([2, 3, 5])]
        if rng.random() < 0.5:
            r["input"] = [1, *r["input"]]
    else:
        r["input"] = [1, rng.choice([1, 2, 3]), rng.choice([4, 5, 6]), 0]
        r["input"][3] = r["input"][2] if rng.random() < 0.7 else rng.choice([4, 5, 6])
        for _ in range(rng.randint(1, 5)):
            k = rng.choice(["conv", "conv", "conv", "pool", "add", "add", "cat", "gap", "drop", "act", "bn"])
            o = {"op": k, "src": [rng.randrange(64), rng.randrange(64)]}
            if k == "conv":
                kk = rng.choice([1, 2, 3])
                o.update(k=kk, kw=kk if rng.random() < 0.8 else rng.choice([1, 2, 3]), s=rng.choice([1, 1, 2]),
                         p=rng.choice([0, 0, 1]) if kk > 1 else 0, d=rng.choice([1, 1, 1, 2]),
                         f=rng.choice([1, 2, 3, 3, 4]), bias=rng.random() < 0.7, bn=rng.random() < 0.3, act=rng.choice([None, "relu", "relu", "clamp", "max0", "min0"]))
            elif k == "act":
                o["act"] = rng.choice(["relu", "clamp", "max0", "min0"])
            elif k == "pool":
                kk = rng.choice([2, 3])
                o.update(k=kk, s=rng.choice([1, 2]), p=rng.choice([0, 0, 1]))
            ops.append(o)
        ops.append({"op": "flatten"})
    for i in range(rng.randint(1, 3)):
        ops.append({"op": "lin", "m": rng.choice([1, 3, 5]), "act": rng.choice([None, "relu"]), "bias": rng.random() < 0.8})
    r["ops"] = ops
    return r


def torch_model(r):
    """(module, example, used ops): straight-line modules within the importer's operators."""
    import torch
    nn = torch.nn
    torch.manual_seed(r["wseed"])
    used = []
    odd = odd_ops()

    class M(nn.Module):
        def __init__(self):
            super().__init__()
            self.m = nn.ModuleList()
            self.prog = []  # (kind, module index, source values)
            shp = {0: tuple(r["input"])}
            plain = {0}  # values nothing is fused into later
            cur, nv = 0, 1

            def push(kind, mod, srcs, shape):
                nonlocal cur, nv
                if mod is not None:
                    self.m.append(mod)
                self.prog.append((kind, len(self.m) - 1 if mod is not None else None, srcs))
                shp[nv] = tuple(shape)
                cur = nv
                nv += 1

            def act(a):
                if a == "relu":
                    push("mod", nn.ReLU(), [cur], shp[cur])
                elif a in ("clamp", "max0", "min0"):
                    push(a, None, [cur], shp[cur])

            def bnorm(n):
                bn = nn.BatchNorm2d(n)
                with torch.no_grad():
                    bn.running_mean.uniform_(-0.5, 0.5)
                    bn.running_var.uniform_(0.5, 1.5)
                    bn.weight.uniform_(0.5, 1.5)
                    bn.bias.uniform_(-1, 1)
                return bn

            for o in r["ops"]:
                s = shp[cur]
                if o["op"] == "odd":
                    try:
                        with torch.no_grad():
                            y = odd_ops()[o["k"]](torch.rand(*s))
                    except Exception:  # noqa: BLE001
                        continue  # not for a tensor of this shape
                    if isinstance(y, tuple) and o is not r["ops"][-1]:
                        continue
                    push("odd:" + o["k"], None, [cur], (y[0] if isinstance(y, tuple) else y).shape)
                    used.append("odd:" + o["k"])
                    continue
                if o["op"] == "conv" and o.get("wide") and len(s) == 4:
                    kw = {"s": {"stride": (o["s"], o["s"] + 1)}, "d": {"dilation": (o["d"], o["d"] + 1)}, "p": {"padding": (o["p"], o["p"] + 1)},
                          "same": {"padding": "same"}, "reflect": {"padding": 1, "padding_mode": "reflect"}}[o["wide"]]
                    mod = nn.Conv2d(s[1], o["f"], (o["k"], o["kw"]), **{**({"stride": o["s"]} if o["wide"] != "same" else {}), **kw}, bias=o["bias"])
                    try:
                        with torch.no_grad():
                            y = mod(torch.rand(*s))
                    except Exception:  # noqa: BLE001
                        continue
                    push("mod", mod, [cur], y.shape)
                    used.append("odd:conv" + o["wide"])
                    continue
                if o["op"] == "conv" and len(s) == 4:
                    oh = (s[2] + 2 * o["p"] - o["d"] * (o["k"] - 1) - 1) // o["s"] + 1
                    ow = (s[3] + 2 * o["p"] - o["d"] * (o["kw"] - 1) - 1) // o["s"] + 1
                    if oh < 1 or ow < 1:
                        continue
                    push("mod", nn.Conv2d(s[1], o["f"], (o["k"], o["kw"]), o["s"], o["p"], o["d"], bias=o["bias"]), [cur], (1, o["f"], oh, ow))
                    used.append("Conv2d")
                    if o["bn"]:
                        plain.add(cur)
                        push("mod", bnorm(o["f"]), [cur], shp[cur])
                        used.append("BatchNorm2d")
                    plain.add(cur)
                    act(o["act"])
                    plain.add(cur)
                elif o["op"] in ("act", "bn") and len(s) == 4:
                    if o["op"] == "act":
                        act(o["act"])
                        used.append("act")
                    else:
                        push("mod", bnorm(s[1]), [cur], s)
                        used.append("BatchNorm2d")
                    plain.add(cur)
                elif o["op"] == "pool" and len(s) == 4:
                    if o["k"] > min(s[2:]) or o["p"] * 2 > o["k"]:
                        continue
                    push("mod", nn.MaxPool2d(o["k"], o["s"], o["p"]), [cur],
                         (1, s[1], (s[2] + 2 * o["p"] - o["k"]) // o["s"] + 1, (s[3] + 2 * o["p"] - o["k"]) // o["s"] + 1))
                    used.append("MaxPool2d")
                    plain.add(cur)
                elif o["op"] == "gap" and len(s) == 4 and s[2] == s[3] and s[2] > 1:
                    push("mod", nn.AdaptiveAvgPool2d(1), [cur], (1, s[1], 1, 1))
                    used.append("AdaptiveAvgPool2d")
                    plain.add(cur)
                elif o["op"] in ("add", "cat") and len(s) == 4:
                    ok = [v for v in sorted(plain) if v != cur and len(shp[v]) == 4 and
                          (shp[v] == s if o["op"] == "add" else shp[v][2:] == s[2:])]
                    if not ok:
                        continue
                    v = ok[o["src"][0] % len(ok)]
                    c = s[1] if o["op"] == "add" else s[1] + shp[v][1]
                    if c > 12:
                        continue
                    push(o["op"], None, [cur, v], (1, c, *s[2:]))
                    used.append(o["op"])
                    plain.add(cur)
                elif o["op"] == "drop":
                    push("mod", nn.Dropout(0.3), [cur], s)
                    used.append("Dropout")
                elif o["op"] == "flatten" and len(s) == 4:
                    push("flatten", None, [cur], (1, int(np.prod(s))))
                elif o["op"] == "lin" and len(s) <= 2:
                    push("mod", nn.Linear(s[-1], o["m"], bias=o.get("bias", True)), [cur], (*s[:-1], o["m"]))
                    used.append("Linear")
                    act(o["act"])
            self.n_ops = len(self.prog)

        def forward(self, x):
            vals = [x]
            for kind, mi, srcs in self.prog:
                if kind == "mod":
                    vals.append(self.m[mi](vals[srcs[0]]))
                elif kind == "add":
                    vals.append(vals[srcs[0]] + vals[srcs[1]])
                elif kind == "cat":
                    vals.append(torch.cat([vals[srcs[0]], vals[srcs[1]]], 1))
                elif kind.startswith("odd:"):
                    vals.append(odd[kind[4:]](vals[srcs[0]]))
                elif kind == "clamp":
                    vals.append(torch.clamp(vals[srcs[0]], -0.5, 0.75))
                elif kind == "max0":
                    vals.append(torch.clamp(vals[srcs[0]], min=-0.25))
                elif kind == "min0":
                    vals.append(torch.clamp(vals[srcs[0]], max=0.5))
                else:
                    vals.append(torch.flatten(vals[srcs[0]], 1))
            return vals[-1]

    m = M().eval()
    return m, torch.zeros(*r["input"]), used


# --------------------------------------------------------------------------- one interface
SAMPLERS = {"nnet": sample_nnet, "json": sample_json, "torch": sample_torch}


def load(r, d):
    """-> (what CodeGenerator is given, reference, input size, dtype, used ops, keyword arguments)"""
    if r["fmt"] == "nnet":
        p = d / "model.nnet"
        p.write_text(nnet_text(r))
        kw = {"normalize": True} if r["normalize"] else {}
        return p, lambda X: nnet_ref(r, X), r["sizes"][0], np.float32, ["Dense"] * (len(r["sizes"]) - 1), kw
    if r["fmt"] == "json":
        j = JsonModel(r)
        p = d / "model.json"
        p.write_text(j.text())
        return p, j.ref, int(np.prod(r["input"])), j.dt, j.used[1:], {}
    import torch
    m, ex, used = torch_model(r)
    if not m.n_ops:
        raise Infeasible("empty PyTorch model")
    with torch.no_grad():
        try:
            prog = torch.export.export(m, (ex,))
        except Exception:  # noqa: BLE001
            if not r.get("odd"):
                raise
            raise Infeasible("not exported") from None
        md = torch_model(r)[0].double()

    def ref(X):
        with torch.no_grad():
            ys = [md(torch.tensor(np.asarray(x, np.float64)).reshape(*r["input"])) for x in X]
            return np.stack([(y[0] if isinstance(y, tuple) else y).numpy().ravel() for y in ys])
    return prog, ref, int(np.prod(r["input"])), np.float32, used, {}


def shrink(r):
    if r["fmt"] == "quant":
        for i in range(1, len(r["sizes"]) if len(r["sizes"]) > 2 else 0):
            yield {**r, "sizes": r["sizes"][:i] + r["sizes"][i + 1:], "layers": r["layers"][:i - 1] + r["layers"][i:]}
        for i, n in enumerate(r["sizes"]):
            if n > 1:
                yield {**r, "sizes": [*r["sizes"][:i], 1, *r["sizes"][i + 1:]]}
        return
    if r["fmt"] == "nnet":
        s = r["sizes"]
        for i in range(1, len(s)):
            if len(s) > 2:
                yield {**r, "sizes": s[:i] + s[i + 1:]}
        for i in range(len(s)):
            if s[i] > 1:
                yield {**r, "sizes": s[:i] + [s[i] // 2] + s[i + 1:]}
        if r["comments"]:
            yield {**r, "comments": 0}
        if r["normalize"]:
            yield {**r, "normalize": False}
        return
    for i in range(len(r["ops"])):
        yield {**r, "ops": r["ops"][:i] + r["ops"][i + 1:]}


def warm():
    """Load what an export needs once, before the runs are forked."""
    import torch
    with torch.no_grad():
        torch.export.export(torch.nn.ReLU(), (torch.zeros(1, 2),))
