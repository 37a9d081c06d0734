"""Random network recipes and their realisation as ONNX models.

A recipe is a plain JSON value: ``{"input": [C,H,W], "ops": [...], "wseed": n}``.
Every op names its sources by index *modulo the number of tensors built so far*
and an op that does not fit the shapes it meets is skipped, so any sub-list of
``ops`` is again a valid recipe: dropping ops is how a failing case is minimised.
"""

from __future__ import annotations

import random

import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper

OPSET = 18
MAX_ELEMS = 900  # largest tensor; keeps one inference to a few 10k accesses


class Builder:
    def __init__(self, recipe, dtype=np.float32):
        self.r = recipe
        self.dtype = np.dtype(dtype)
        self.w = np.random.default_rng(recipe["wseed"])
        self.nodes, self.inits = [], []
        self.shape = {}
        self.order = []  # tensors in construction order
        self.n = 0
        self.names = recipe.get("names", "plain")
        self.used_ops = []
        self.opset = recipe.get("opset", OPSET)

    # -- helpers -----------------------------------------------------------
    def fresh(self, p="t"):
        self.n += 1
        return f"{p}{self.n}"

    def _const(self, t):
        """An initializer, or the output of a Constant node."""
        if self.r.get("consts") and self.w.random() < 0.5:
            self.nodes.append(helper.make_node("Constant", [], [t.name], name=f"Constant_{t.name}", value=t))
        else:
            self.inits.append(t)
        return t.name

    def init(self, arr, p="w"):
        return self._const(numpy_helper.from_array(np.array(arr, order="C"), self.fresh(p)))

    def init_i(self, vals, p="i"):
        # int64 constants stored as int64_data, which is what torch.onnx emits for axes
        name = self.fresh(p)
        a = np.asarray(vals, dtype=np.int64)
        if self.r.get("raw"):
            return self._const(numpy_helper.from_array(a, name))
        return self._const(helper.make_tensor(name, TensorProto.INT64, a.shape, a.flatten().tolist()))

    def rnd(self, shape, lo=-1.0, hi=1.0):
        a = self.w.uniform(lo, hi, size=shape).astype(self.dtype)
        if lo < 0 < hi and self.r["wseed"] % 5 == 2:  # pruned and repeated weights
            at = self.w.random(a.shape) < 0.4
            a[at] = self.w.choice(np.array([0.0, -0.0, 0.0, 0.5, -0.5], self.dtype), size=int(at.sum()))
        return a

    def node(self, op, ins, shape, **attrs):
        out = self.fresh()
        name = "" if self.names == "blank" and op not in BCAST else f"{op}_{self.n}"
        self.nodes.append(helper.make_node(op, ins, [out], name=name, **attrs))
        self.shape[out] = tuple(int(s) for s in shape)
        self.order.append(out)
        return out

    def build(self):
        r = self.r
        self.shape["input"] = (1, *r["input"])
        self.order = ["input"]
        for op in r["ops"]:
            f = OPS[op["op"]]
            src = [self.order[s % len(self.order)] for s in op.get("src", [len(self.order) - 1])]
            before = (len(self.nodes), len(self.inits), len(self.order))
            try:
                ok = f(self, src, op)
            except (IndexError, KeyError, ZeroDivisionError):
                ok = None
            if ok is None or int(np.prod(self.shape[ok])) > MAX_ELEMS * 2:
                del self.nodes[before[0]:]
                del self.inits[before[1]:]
                del self.order[before[2]:]
            else:
                self.used_ops.append(op["op"] + (":" + op["v"] if op.get("v") else ""))
        if len(self.order) == 1:
            self.node("Relu", ["input"], self.shape["input"])
        if r.get("hwc") and self.nodes[-1].op_type not in ("Conv", "MaxPool", "AveragePool"):
            # only convolutions and poolings carry the shape the output is converted with
            op_conv(self, [self.order[-1]], dict(kh=1, kw=1, s=1, p=[0] * 4, f=2))
        out = self.order[-1]
        # keep only what the output needs
        need, keep = {out}, []
        for nd in reversed(self.nodes):
            if nd.output[0] in need:
                keep.append(nd)
                need.update(nd.input)
        self.nodes = keep[::-1]
        self.inits = [i for i in self.inits if i.name in need]
        tt = TensorProto.DOUBLE if self.dtype == np.float64 else TensorProto.FLOAT
        if "input" not in need:
            raise Infeasible("input unused")
        g = helper.make_graph(
            self.nodes, "net",
            [helper.make_tensor_value_info("input", tt, self.shape["input"])],
            [helper.make_tensor_value_info(out, tt, self.shape[out])],
            self.inits,
        )
        m = helper.make_model(g, opset_imports=[helper.make_opsetid("", self.opset)])
        m.ir_version = 8
        m = onnx.shape_inference.infer_shapes(m, strict_mode=True)
        return m


class Infeasible(Exception):
    pass


BCAST = {"Add", "Sub", "Mul", "Div", "Max", "Min", "Mean"}


def is4(b, t):
    s = b.shape[t]
    return len(s) == 4


def is2(b, t):
    return len(b.shape[t]) == 2


# ---- 4-D operators ----------------------------------------------------------
def op_conv(b, src, o):
    x = src[0]
    if not is4(b, x):
        return None
    _, c, h, w = b.shape[x]
    kh, kw, s, p, f, d = o["kh"], o["kw"], o["s"], o["p"], o["f"], o.get("d", 1)
    attrs = dict(kernel_shape=[kh, kw], strides=[s, s], dilations=[d, d])
    ap = o.get("auto")
    if ap == "SAME":
        d = 1
        attrs["dilations"] = [1, 1]
        ap = o.get("auto_kind", "SAME_UPPER")
        oh, ow = -(-h // s), -(-w // s)
        attrs["auto_pad"] = ap
    elif ap == "VALID":
        attrs["auto_pad"] = "VALID"
        oh, ow = (h - (d * (kh - 1) + 1)) // s + 1, (w - (d * (kw - 1) + 1)) // s + 1
    else:
        pt, pl, pb, pr = p
        attrs["pads"] = [pt, pl, pb, pr]
        oh = (h + pt + pb - (d * (kh - 1) + 1)) // s + 1
        ow = (w + pl + pr - (d * (kw - 1) + 1)) // s + 1
    if oh < 1 or ow < 1 or f * oh * ow > MAX_ELEMS or c * kh * kw * oh * ow > 6 * MAX_ELEMS:
        return None
    if min(h, w) < 1 or kh > h + 2 or kw > w + 2:
        return None
    if b.r.get("hwc"):
        p = [0] * 4 if ap == "VALID" else p
        if ap == "SAME" or d != 1 or p[0] != p[1] or kh != kw:
            return None
        if kh == 3 and s == 1 and w % 2 == 0 and (oh % 2 or ow % 2):
            return None  # Winograd tiles of two by two
    ins = [x, b.init(b.rnd((f, c, kh, kw)) / np.dtype(b.dtype).type(max(1.0, (c * kh * kw) ** 0.5)))]
    if o.get("bias", True):
        ins.append(b.init(b.rnd((f,))))
    t = b.node("Conv", ins, (1, f, oh, ow), **attrs)
    return _act(b, t, o.get("act"))


def _act(b, t, act):
    if act in (None, "none"):
        return t
    return op_act(b, [t], {"f": act})


def op_act(b, src, o):
    x = src[0]
    f = o["f"]
    s = b.shape[x]
    if f in ("Relu", "Tanh", "Sigmoid"):
        return b.node(f, [x], s)
    if f == "LeakyRelu":
        if "alpha" in o:
            return b.node(f, [x], s, alpha=o["alpha"])
        return b.node(f, [x], s)
    if f == "Clip":
        lo = b.init(np.array(o.get("lo", -0.3), dtype=b.dtype)) if o.get("lo", 0) is not None else ""
        hi = b.init(np.array(o.get("hi", 0.4), dtype=b.dtype)) if o.get("hi", 0) is not None else ""
        return b.node(f, [x, lo, hi] if hi else [x, lo] if lo else [x], s)
    if f == "ExpT":  # exp of a bounded value
        t = b.node("Tanh", [x], s)
        return b.node("Exp", [t], s)
    if f == "LogS":  # log of a strictly positive value
        t = b.node("Sigmoid", [x], s)
        return b.node("Log", [t], s)
    if f == "Silu":
        t = b.node("Sigmoid", [x], s)
        return b.node("Mul", [x, t], s)
    return None


def op_bn(b, src, o):
    x = src[0]
    if not is4(b, x):
        return None
    c = b.shape[x][1]
    ins = [x, b.init(b.rnd((c,), 0.5, 1.5)), b.init(b.rnd((c,))), b.init(b.rnd((c,))),
           b.init(b.rnd((c,), 0.3, 1.5))]
    kw = {}
    if o.get("eps"):
        kw["epsilon"] = o["eps"]
    return _act(b, b.node("BatchNormalization", ins, b.shape[x], **kw), o.get("act"))


def _pool(b, src, o, kind):
    x = src[0]
    if not is4(b, x):
        return None
    _, c, h, w = b.shape[x]
    k, s = o["k"], o["s"]
    attrs = dict(kernel_shape=[k, k], strides=[s, s])
    if o.get("auto") == "SAME":
        attrs["auto_pad"] = "SAME_UPPER"
        oh, ow = -(-h // s), -(-w // s)
    else:
        pt, pl, pb, pr = o["p"]
        if max(pt, pl, pb, pr) >= k:
            return None
        if kind == "AveragePool" and (pt or pl or pb or pr):
            attrs["count_include_pad"] = 0
        attrs["pads"] = [pt, pl, pb, pr]
        oh, ow = (h + pt + pb - k) // s + 1, (w + pl + pr - k) // s + 1
    if oh < 1 or ow < 1 or k > min(h, w):
        return None
    return b.node(kind, [x], (1, c, oh, ow), **attrs)


def op_maxpool(b, src, o):
    return _pool(b, src, o, "MaxPool")


def op_avgpool(b, src, o):
    return _pool(b, src, o, "AveragePool")


def op_gap(b, src, o):
    x = src[0]
    if not is4(b, x) or b.shape[x][2] != b.shape[x][3]:
        return None
    _, c, _, _ = b.shape[x]
    return b.node("GlobalAveragePool", [x], (1, c, 1, 1))


def _bshape(shapes):
    try:
        return np.broadcast_shapes(*shapes)
    except ValueError:
        return None


def op_merge(b, src, o):
    f = o["f"]
    xs = list(src)
    if o.get("same"):  # same tensor twice
        xs = [xs[0], xs[0]]
    if f in ("Add", "Sub", "Mul", "Div"):
        xs = xs[:2]
    ranks = {len(b.shape[x]) for x in xs}
    if len(ranks) != 1:
        return None
    s = _bshape([b.shape[x] for x in xs])
    if s is None or len(xs) < 2:
        return None
    if ranks == {2} and len({b.shape[x] for x in xs}) != 1:
        return None
    if f == "Div":  # keep the divisor away from zero
        t = b.node("Sigmoid", [xs[1]], b.shape[xs[1]])
        xs = [xs[0], t]
    return _act(b, b.node(f, xs, s), o.get("act"))


def op_const(b, src, o):
    """Binary operator with a constant operand."""
    x = src[0]
    s = b.shape[x]
    f = o["f"]
    kind = o.get("kind", "full")
    if len(s) == 2:
        cs = s if kind != "scalar" else (1,)
    else:
        cs = {"full": s, "chan": (1, s[1], 1, 1), "row": (1, 1, 1, s[3]), "scalar": (1, 1, 1, 1)}[kind]
    lo, hi = (0.6, 0.95) if f in ("Mul", "Div") else (0.1, 1.0)
    if f == "Sub" or f == "Add":
        c = b.rnd(cs, lo, hi) * np.dtype(b.dtype).type(1 if o.get("pos", True) else -1)
    else:
        c = b.rnd(cs, lo, hi)
    if f != "Div" and o.get("neutral"):  # constants that hold 0 and 1
        c.flat[:: 2] = b.dtype.type(o["neutral"] - 1)
    ins = [x, b.init(c)]
    if o.get("swap") and f == "Div":  # keep the divisor away from zero
        ins[0] = b.node("Sigmoid", [x], s)
    if o.get("swap"):
        ins = ins[::-1]
    return _act(b, b.node(f, ins, s), o.get("act"))


def op_concat(b, src, o):
    ax = o["axis"]
    xs = src
    if len({len(b.shape[x]) for x in xs}) != 1:
        return None
    r = len(b.shape[xs[0]])
    if r == 2:
        ax = 1
    sh = [list(b.shape[x]) for x in xs]
    for s in sh:
        t = list(s)
        t[ax] = sh[0][ax]
        if t != sh[0]:
            return None
    out = list(sh[0])
    out[ax] = sum(s[ax] for s in sh)
    if int(np.prod(out)) > MAX_ELEMS:
        return None
    return b.node("Concat", xs, out, axis=ax - r if o.get("v") == "neg" else ax)


def op_pad(b, src, o):
    x = src[0]
    if not is4(b, x):
        return None
    s = b.shape[x]
    mode = o["mode"]
    p = o["p"]  # [t,l,b,r]
    cpad = o.get("cp", [0, 0])
    pads = [0, cpad[0], p[0], p[1], 0, cpad[1], p[2], p[3]]
    out = [s[i] + pads[i] + pads[i + 4] for i in range(4)]
    if int(np.prod(out)) > MAX_ELEMS:
        return None
    if mode in ("reflect", "wrap"):
        lim = 1 if mode == "reflect" else 0
        for i in range(4):
            if pads[i] > s[i] - lim or pads[i + 4] > s[i] - lim:
                return None
    v = o.get("v")
    if mode == "wrap" and b.opset < 19:
        return None
    cv = b.init(np.array(o.get("cv", 0.5), dtype=b.dtype))
    if v == "axes":  # any order, counted from either end
        ax = [3, -3, 2] if o["p"][0] % 2 else [-1, 2, 1]
        pads = [pads[a % 4] for a in ax] + [pads[4 + a % 4] for a in ax]
        ins = [x, b.init_i(pads), cv, b.init_i(ax)]
    elif v == "nocv" and (mode != "constant" or o.get("cv") == 0.0):
        ins = [x, b.init_i(pads)]
    else:
        ins = [x, b.init_i(pads), cv]
    return b.node("Pad", ins, out, mode=mode)


def op_transpose(b, src, o):
    x = src[0]
    if not is4(b, x):
        return None
    perm = o["perm"]
    s = b.shape[x]
    return b.node("Transpose", [x], [s[i] for i in perm], perm=perm)


def op_tile(b, src, o):
    x = src[0]
    if not is4(b, x):
        return None
    rep = [1, *o["rep"]]
    s = [a * r for a, r in zip(b.shape[x], rep)]
    if int(np.prod(s)) > MAX_ELEMS:
        return None
    return b.node("Tile", [x, b.init_i(rep)], s)


def op_gather(b, src, o):
    x = src[0]
    if not is4(b, x):
        return None
    s = list(b.shape[x])
    ax = o["axis"]
    idx = [i % s[ax] for i in o["idx"]]
    if o.get("v") == "neg":
        idx = [i - s[ax] if i % 2 else i for i in idx]
    s[ax] = len(idx)
    return b.node("Gather", [x, b.init_i(idx)], s, axis=ax - 4 if o.get("v") == "neg" else ax)


def op_gather_elements(b, src, o):
    x = src[0]
    if not is4(b, x):
        return None
    s = list(b.shape[x])
    ax = o["axis"]
    n = max(1, min(o["n"], s[ax]))
    s2 = list(s)
    s2[ax] = n
    neg = o.get("v") == "neg"
    idx = np.random.default_rng(o["iseed"]).integers(-s[ax] if neg else 0, s[ax], size=s2)
    return b.node("GatherElements", [x, b.init_i(idx)], s2, axis=ax - 4 if neg else ax)


def op_reduce(b, src, o):
    x = src[0]
    if not is4(b, x):
        return None
    axes = sorted(set(o["axes"]))
    s = list(b.shape[x])
    for a in axes:
        s[a] = 1
    f, v = o["f"], o.get("v")
    if v in ("all", "noop"):
        axes = [] if v == "noop" else [0, 1, 2, 3]
        s = [1] * 4 if v == "all" else list(b.shape[x])
    if f == "ReduceProd" and int(np.prod([b.shape[x][a] for a in axes])) > 12:
        return None
    kw = {"keepdims": 1} if v != "nokeep" else {"keepdims": 0}
    if v == "defkeep":
        kw = {}
    if v == "nokeep":
        s = [d for i, d in enumerate(s) if i not in axes]
    if v == "all":
        return b.node(f, [x], s, **kw)
    if v == "noop":
        return b.node(f, [x], s, noop_with_empty_axes=1, **kw)
    if v == "neg":
        axes = [a - 4 for a in axes][::-1]
    return b.node(f, [x, b.init_i(axes)], s, **kw)


def op_resize(b, src, o):
    x = src[0]
    if not is4(b, x):
        return None
    s = list(b.shape[x])
    sh, sw = o["scale"]
    v = o.get("v")
    out = [1, s[1], max(1, int(s[2] * sh)), max(1, int(s[3] * sw))]
    if int(np.prod(out)) > MAX_ELEMS:
        return None
    attrs = dict(mode=o["mode"], coordinate_transformation_mode=o["ctm"])
    if v == "defmode":
        if o["mode"] != "nearest":
            return None
        del attrs["mode"]
    if v == "defctm":
        del attrs["coordinate_transformation_mode"]
    if o["mode"] == "nearest" and v != "defnm":
        attrs["nearest_mode"] = o["nm"]
    if o["mode"] == "cubic" and o.get("ca"):
        attrs["cubic_coeff_a"] = o["ca"]
    if o["mode"] == "cubic" and v == "exo":
        attrs["exclude_outside"] = 1
    if v == "scales":
        ins = [x, "", b.init(np.array([1, 1, sh, sw], dtype=np.float32))]
    else:
        ins = [x, "", "", b.init_i(out)]
    if o["mode"] != "nearest" and s[2] == 1 and s[3] == 1:
        return None  # refused by the importer
    return b.node("Resize", ins, out, **attrs)


def op_softmax(b, src, o):
    x = src[0]
    s = b.shape[x]
    if len(s) < 2:
        return None
    ax = o["axis"] if len(s) == 4 else 1
    if len(s) == 4 and sum(1 for d in s[1:] if d > 1) < 2 and s[ax] != int(np.prod(s)):
        return None
    if o.get("v") == "noaxis":
        ax = len(s) - 1
        if len(s) == 4 and s[ax] == 1:
            return None
        return b.node("Softmax", [x], s)
    return b.node("Softmax", [x], s, axis=ax - len(s) if o.get("v") == "neg" else ax)


# ---- rank changes and 2-D operators ----------------------------------------
def op_flatten(b, src, o):
    x = src[0]
    if not is4(b, x):
        return None
    return b.node("Flatten", [x], (1, int(np.prod(b.shape[x]))), axis=1)


def op_drop(b, src, o):
    return b.node("Dropout", [src[0]], b.shape[src[0]])


def op_reshape(b, src, o):
    """Same elements, another shape."""
    x = src[0]
    n = int(np.prod(b.shape[x]))
    q = o["q"]
    if q == 0:
        s, t = (1, n), [1, -1]
    elif q == 1:
        s, t = (1, n, 1, 1), [1, n, 1, 1]
    elif q == 2 and n % 2 == 0:
        s, t = (1, 2, n // 2, 1), [1, 2, n // 2, 1]
    elif q == 3 and is4(b, x):
        s = t = (1, b.shape[x][2], b.shape[x][1], b.shape[x][3])
    else:
        return None
    return b.node("Reshape", [x, b.init_i(t)], s)


def op_unsqueeze(b, src, o):
    x = src[0]
    s = b.shape[x]
    if len(s) == 2:
        return b.node("Unsqueeze", [x, b.init_i([1, 2])], (s[0], 1, 1, s[1]))
    if len(s) == 3:
        return b.node("Unsqueeze", [x, b.init_i([1])], (s[0], 1, s[1], s[2]))
    return None


def op_exotic(b, src, o):
    """What the importer may refuse but must not get wrong."""
    x = src[0]
    if not is4(b, x):
        return None
    _, c, h, w = b.shape[x]
    v = o["v"]
    if v == "strides":
        f, (sh, sw) = 2, ((1, 2), (2, 1))[o["q"] % 2]
        if h < 3 or w < 3:
            return None
        oh, ow = (h - 2) // sh + 1, (w - 2) // sw + 1
        return b.node("Conv", [x, b.init(b.rnd((f, c, 2, 2)))], (1, f, oh, ow), kernel_shape=[2, 2], strides=[sh, sw])
    if v == "dilations":
        f, (dh, dw) = 2, ((1, 2), (2, 1))[o["q"] % 2]
        if h < 4 or w < 4:
            return None
        return b.node("Conv", [x, b.init(b.rnd((f, c, 2, 2)))], (1, f, h - dh, w - dw), kernel_shape=[2, 2], dilations=[dh, dw])
    if v == "group":
        if c < 2 or h < 2 or w < 2:
            return None
        return b.node("Conv", [x, b.init(b.rnd((c, 1, 2, 2)))], (1, c, h - 1, w - 1), kernel_shape=[2, 2], group=c)
    if v == "nokernel":
        if h < 2 or w < 2:
            return None
        return b.node("Conv", [x, b.init(b.rnd((2, c, 2, 2)))], (1, 2, h - 1, w - 1))
    kind = ("MaxPool", "AveragePool")[o["q"] % 2]
    if v == "poolkernel":
        if h < 3 or w < 3:
            return None
        return b.node(kind, [x], (1, c, h - 1, w - 2), kernel_shape=[2, 3])
    if v == "poolstrides":
        if h < 3 or w < 3:
            return None
        return b.node(kind, [x], (1, c, h - 1, (w - 2) // 2 + 1), kernel_shape=[2, 2], strides=[1, 2])
    if v == "pooldilations":
        if h < 3 or w < 3:
            return None
        return b.node("MaxPool", [x], (1, c, h - 2, w - 2), kernel_shape=[2, 2], dilations=[2, 2])
    if v == "ceil":
        if h < 3 or w < 3:
            return None
        return b.node(kind, [x], (1, c, -(-(h - 2) // 2) + 1, -(-(w - 2) // 2) + 1), kernel_shape=[2, 2], strides=[2, 2], ceil_mode=1)
    if v == "countpad":
        if h < 2 or w < 2:
            return None
        return b.node("AveragePool", [x], (1, c, h + 1, w + 1), kernel_shape=[2, 2], pads=[1, 1, 1, 1], count_include_pad=1)
    if v == "gap":
        if h == w:
            return None
        return b.node("GlobalAveragePool", [x], (1, c, 1, 1))
    if v == "matmulleft":
        m = 2 + o["q"] % 3
        if c != 1:
            return None
        return b.node("MatMul", [b.init(b.rnd((m, h))), x], (1, 1, m, w))
    if v == "matmulright":
        m = 2 + o["q"] % 3
        if c != 1:
            return None
        return b.node("MatMul", [x, b.init(b.rnd((w, m)))], (1, 1, h, m))
    if v == "matmulbatch":
        m = 2 + o["q"] % 3
        if c == 1:
            return None
        return b.node("MatMul", [x, b.init(b.rnd((w, m)))], (1, c, h, m))
    if v == "flatten2":
        return b.node("Flatten", [x], (c, h * w), axis=2) if c > 1 else None
    if v == "maxconst":
        return b.node("Max", [x, b.init(b.rnd((1, c, 1, 1)))], (1, c, h, w))
    if v == "identity":
        return b.node("Identity", [x], (1, c, h, w))
    if v == "sub3":
        return b.node("Sum", [x, x, x], (1, c, h, w))
    if v == "lrn":
        return b.node("LRN", [x], (1, c, h, w), size=3, alpha=3.0)
    if v == "gatherscalar":
        return b.node("Gather", [x, b.init_i(0)], (1, h, w), axis=1)
    if v == "gather2":
        return b.node("Gather", [x, b.init_i([[0, 0], [c - 1, 0]])], (1, 2, 2, h, w), axis=1)
    if v == "bn1":
        return b.node("BatchNormalization", [x, *(b.init(b.rnd((c,), 0.5, 1.5)) for _ in range(4))], (1, c, h, w), training_mode=0, epsilon=0.1)
    if v == "rowconst":
        return b.node(("Add", "Mul", "Sub", "Div")[o["q"] % 4], [x, b.init(b.rnd((w,), 0.5, 1.5))], (1, c, h, w))
    if v == "scalarconst":
        return b.node(("Add", "Mul", "Sub", "Div")[o["q"] % 4], [x, b.init(b.rnd((), 0.5, 1.5))], (1, c, h, w))
    if v == "bigconst":  # the constant is what gives the shape
        return b.node(("Add", "Mul", "Sub", "Div")[o["q"] % 4], [x, b.init(b.rnd((1, 2, h, w), 0.5, 1.5))], (1, 2, h, w)) if c == 1 else None
    if v == "gemmbias":
        t = b.node("Flatten", [x], (1, c * h * w), axis=1)
        m = 2 + o["q"] % 3
        return b.node("Gemm", [t, b.init(b.rnd((c * h * w, m))), b.init(b.rnd(((1, m), (1, 1), (1,), ())[o["q"] % 4]))], (1, m))
    return None


EXOTIC = ["strides", "dilations", "group", "nokernel", "poolkernel", "poolstrides", "pooldilations", "ceil", "countpad", "gap", "matmulleft",
          "matmulright", "matmulbatch", "flatten2", "maxconst", "identity", "sub3", "lrn", "gatherscalar", "gather2", "bn1", "rowconst",
          "scalarconst", "bigconst", "gemmbias"]
EXOTIC.remove("lrn")  # always imported as the identity: recorded in known_findings.txt


def op_gemm(b, src, o):
    x = src[0]
    if not is2(b, x):
        return None
    n = b.shape[x][1]
    m = o["m"]
    if n * m > 8 * MAX_ELEMS:
        return None
    tb = o.get("tb", 0)
    w = b.rnd((m, n) if tb else (n, m)) / np.dtype(b.dtype).type(n ** 0.5)
    ins = [x, b.init(w)]
    if o.get("bias", True):
        ins.append(b.init(b.rnd((m,))))
    kw = dict(transB=tb)
    if o.get("alpha", 1.0) != 1.0:
        kw["alpha"] = o["alpha"]
    if o.get("beta", 1.0) != 1.0:
        kw["beta"] = o["beta"]
    return _act(b, b.node("Gemm", ins, (1, m), **kw), o.get("act"))


def op_matmul(b, src, o):
    x = src[0]
    if not is2(b, x):
        return None
    n = b.shape[x][1]
    m = o["m"]
    if n * m > 8 * MAX_ELEMS:
        return None
    w = b.init(b.rnd((n, m)) / np.dtype(b.dtype).type(n ** 0.5))
    t = b.node("MatMul", [x, w], (1, m))
    if o.get("add", True):
        bias = b.rnd((m,) if o.get("b1", True) else (1, m), 0.05, 1.0)
        t = b.node("Add", [t, b.init(bias)], (1, m))
    return _act(b, t, o.get("act"))


def op_matmul4(b, src, o):
    """Product of two computed 4-D tensors."""
    x, y = src[0], src[1]
    if not (is4(b, x) and is4(b, y)):
        return None
    sx, sy = b.shape[x], b.shape[y]
    if sx[1] != 1 or sy[1] != 1 or sx[3] != sy[2]:
        return None
    if sx[2] * sy[3] > MAX_ELEMS:
        return None
    return b.node("MatMul", [x, y], (1, 1, sx[2], sy[3]))


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}


# ---- recipe sampling --------------------------------------------------------
ACTS = ["Relu", "Tanh", "Sigmoid", "LeakyRelu", "Clip", "ExpT", "LogS"]
FUSED = [None, None, "Relu", "Relu", "Tanh", "Sigmoid", "LeakyRelu"]

#: op kinds that survive generation on every tree we call correct; the importer
#: restrictions behind this list are in DESIGN.md ("domain")
KINDS4 = ["conv", "conv", "conv", "bn", "act", "maxpool", "avgpool", "gap", "merge", "merge", "merge",
          "const", "concat", "concat", "pad", "transpose", "tile", "gather", "gather_elements",
          "reduce", "resize", "softmax", "matmul4", "drop", "reshape", "unsqueeze", "exotic"]
KINDS2 = ["gemm", "gemm", "matmul", "merge", "act", "softmax", "concat", "const", "drop", "reshape", "unsqueeze"]


def sample_op(rng: random.Random, kind: str, ntens: int, deep=True):
    def src1():
        # prefer recent tensors but reach back often enough to keep old ones alive
        if rng.random() < 0.7:
            return ntens - 1
        return rng.randrange(max(1, ntens))

    o = {"op": kind, "src": [src1()]}
    if kind == "conv":
        k = rng.choice([1, 1, 2, 3, 3, 3, 4])
        kw_ = k if rng.random() < 0.8 else rng.choice([1, 2, 3])
        s = rng.choice([1, 1, 1, 2])
        o.update(kh=k, kw=kw_, s=s, f=rng.choice([1, 2, 3, 4, 5]), bias=rng.random() < 0.8,
                 act=rng.choice(FUSED), d=1)
        q = rng.random()
        if q < 0.5:
            pp = rng.choice([0, 0, 1])
            o["p"] = [pp] * 4
        elif q < 0.75:
            o["p"] = [rng.randint(0, 1) for _ in range(4)]
        elif q < 0.9:
            o.update(p=[0] * 4, auto="SAME")
        else:
            o.update(p=[0] * 4, auto="VALID")
        if rng.random() < 0.15:
            o["d"] = 2
    elif kind == "bn":
        o.update(act=rng.choice(FUSED), eps=rng.choice([None, 1e-3, 1e-5]))
    elif kind == "act":
        o["f"] = rng.choice(ACTS + ["Silu"])
        if o["f"] == "Clip":
            o["lo"], o["hi"] = rng.choice([(-0.3, 0.4), (-0.3, 0.4), (None, 0.25), (-0.125, None), (None, None), (0.0, 6.0)])
        if o["f"] == "LeakyRelu" and rng.random() < 0.5:
            o["alpha"] = rng.choice([0.05, 0.25])
    elif kind in ("maxpool", "avgpool"):
        k = rng.choice([2, 2, 3])
        o.update(k=k, s=rng.choice([1, 2, 2]), p=[0] * 4)
        if rng.random() < 0.3:
            o["p"] = [rng.randint(0, 1) for _ in range(4)]
        if rng.random() < 0.1:
            o["auto"] = "SAME"
    elif kind == "merge":
        o["f"] = rng.choice(["Add", "Add", "Mul", "Sub", "Max", "Min", "Mean", "Div"])
        n = 2 if rng.random() < 0.7 else rng.choice([3, 4])
        o["src"] = [rng.randrange(max(1, ntens)) for _ in range(n)]
        if rng.random() < 0.6:
            o["src"][0] = ntens - 1
        if rng.random() < 0.15:
            o["same"] = True
        o["act"] = rng.choice(FUSED)
    elif kind == "const":
        o.update(f=rng.choice(["Add", "Mul", "Sub", "Div"]), kind=rng.choice(["full", "chan", "row", "scalar"]),
                 swap=rng.random() < 0.3, pos=rng.random() < 0.5, neutral=rng.choice([0, 0, 1, 2]), act=rng.choice(FUSED))
    elif kind == "concat":
        n = 2 if rng.random() < 0.7 else 3
        o["src"] = [rng.randrange(max(1, ntens)) for _ in range(n)]
        o["axis"] = rng.choice([1, 1, 2, 3])
    elif kind == "pad":
        o.update(mode=rng.choice(["constant", "edge", "reflect", "wrap"]), p=[rng.randint(0, 2) for _ in range(4)],
                 cp=[0, 0] if rng.random() < 0.7 else [rng.randint(0, 1), rng.randint(0, 1)],
                 cv=rng.choice([0.0, 0.5, -1.25]))
    elif kind == "transpose":
        p = [1, 2, 3]
        rng.shuffle(p)
        o["perm"] = [0, *p]
    elif kind == "tile":
        o["rep"] = [rng.choice([1, 1, 2]), rng.choice([1, 2]), rng.choice([1, 2])]
    elif kind == "gather":
        o.update(axis=rng.choice([1, 2, 3]), idx=[rng.randrange(16) for _ in range(rng.randint(1, 4))])
    elif kind == "gather_elements":
        o.update(axis=rng.choice([1, 2, 3]), n=rng.randint(1, 4), iseed=rng.randrange(1 << 30))
    elif kind == "reduce":
        k = rng.choice([1, 1, 2, 3])
        o.update(f=rng.choice(["ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceProd"]),
                 axes=sorted(rng.sample([1, 2, 3], k)))
    elif kind == "resize":
        mode = rng.choice(["nearest", "linear", "cubic"])
        o.update(mode=mode, scale=[rng.choice([1, 2, 2, 0.5, 1.5]), rng.choice([1, 2, 3, 0.5])], ca=rng.choice([None, None, -0.5]),
                 ctm=rng.choice(["asymmetric", "half_pixel", "align_corners", "pytorch_half_pixel"]),
                 nm=rng.choice(["floor", "ceil", "round_prefer_floor", "round_prefer_ceil"]))
    elif kind == "softmax":
        o["axis"] = rng.choice([1, 2, 3])
    elif kind == "gemm":
        o.update(m=rng.choice([1, 3, 4, 7, 10]), tb=rng.randint(0, 1), bias=rng.random() < 0.8,
                 alpha=rng.choice([1.0, 1.0, 0.5]), beta=rng.choice([1.0, 1.0, 1.5]), act=rng.choice(FUSED))
    elif kind == "matmul":
        o.update(m=rng.choice([1, 3, 4, 7, 10]), add=rng.random() < 0.8, b1=rng.random() < 0.5,
                 act=rng.choice(FUSED))
    elif kind == "matmul4":
        o["src"] = [rng.randrange(max(1, ntens)), rng.randrange(max(1, ntens))]
    elif kind == "reshape":
        o["q"] = rng.randrange(4)
    elif kind == "exotic":
        o.update(v=rng.choice(EXOTIC), q=rng.randrange(8))
    if kind in VARIANTS and rng.random() < 0.3:
        o["v"] = rng.choice(VARIANTS[kind])
    return o


VARIANTS = {"concat": ["neg"], "pad": ["axes", "axes", "nocv"], "gather": ["neg"], "gather_elements": ["neg"],
            "reduce": ["neg", "all", "nokeep", "defkeep"], "resize": ["defmode", "defctm", "defnm", "scales", "scales", "exo"],
            "softmax": ["noaxis", "neg"]}


def sample_dag(rng: random.Random, flat=None):
    """Operators of one shape reading any earlier tensors: many readers each, in any order; what is left is joined at the end."""
    flat = rng.random() < 0.3 if flat is None else flat
    ops = [{"op": "flatten", "src": [-1]}, {"op": "gemm", "src": [-1], "m": 4, "act": None}] if flat else []
    nt, read = 1 + len(ops), set()
    first = nt - 1
    near = rng.choice([0.2, 0.5, 0.8])

    def src():
        t = nt - 1 if rng.random() < near else rng.randrange(first, nt)
        read.add(t)
        return t

    for _ in range(rng.choice([4, 6, 8, 10, 12])):
        q = rng.random()
        if q < 0.45:
            o = {"op": "merge", "f": rng.choice(["Add", "Sub", "Mul", "Max", "Min"]), "act": rng.choice([None, None, "Relu", "Sigmoid"])}
            o["src"] = [src(), src()] if o["f"] in ("Add", "Sub", "Mul") or rng.random() < 0.6 else [src(), src(), src()]
        elif q < 0.8 or flat:
            o = {"op": "act", "src": [src()], "f": rng.choice(["Relu", "Tanh", "Sigmoid", "LeakyRelu"])}
        else:
            o = rng.choice([{"op": "bn", "act": None, "eps": None}, {"op": "const", "f": "Add", "kind": "chan", "swap": False, "pos": True, "neutral": 1, "act": None},
                            {"op": "maxpool", "k": 1, "s": 1, "p": [0] * 4}])
            o = {**o, "src": [src()]}
        ops.append(o)
        nt += 1
        if o.get("act"):  # an operator and its activation are two tensors
            nt += 1
    loose = [t for t in range(first, nt - 1) if t not in read]
    rng.shuffle(loose)
    for t in loose[:5]:
        ops.append({"op": "merge", "f": rng.choice(["Add", "Sub"]), "src": [t, nt - 1] if rng.random() < 0.5 else [nt - 1, t], "act": None})
        nt += 1
    shape = [rng.choice([1, 2]), rng.choice([1, 2, 3]), rng.choice([2, 3])]
    return {"input": shape, "ops": ops, "wseed": rng.randrange(1 << 31), "names": "plain"}


def sample_recipe(rng: random.Random, n4=None, n2=None, kinds4=None, kinds2=None, dag=0.12):
    """Swarm style: each recipe enables a random subset of operator kinds."""
    if kinds4 is None and kinds2 is None and rng.random() < dag:
        return sample_dag(rng)
    k4 = list(kinds4 or KINDS4)
    uniq = sorted(set(k4))
    if rng.random() < 0.7:
        on = set(rng.sample(uniq, rng.randint(2, max(2, len(uniq) // 2))))
        on |= {"conv"} if rng.random() < 0.5 else set()
        on |= {"merge"} if rng.random() < 0.5 else set()
        k4 = [k for k in k4 if k in on] or k4
    c = rng.choice([1, 1, 2, 3])
    h = rng.choice([2, 3, 4, 5, 6, 7])
    w = h if rng.random() < 0.7 else rng.choice([2, 3, 4, 5, 6, 7])
    n4 = rng.choice([1, 2, 3, 4, 6, 8, 10]) if n4 is None else n4
    n2 = rng.choice([0, 0, 1, 2, 3, 4]) if n2 is None else n2
    ops, nt = [], 1
    for _ in range(n4):
        ops.append(sample_op(rng, rng.choice(k4), nt))
        nt += 1
    if n2:
        ops.append({"op": "flatten", "src": [-1]})
        nt += 1
        for i in range(n2):
            k = "gemm" if i == 0 and rng.random() < 0.5 else rng.choice(kinds2 or KINDS2)
            ops.append(sample_op(rng, k, nt))
            nt += 1
    r = {"input": [c, h, w], "ops": ops, "wseed": rng.randrange(1 << 31),
         "names": "blank" if rng.random() < 0.1 else "plain"}
    if rng.random() < 0.25:
        r["consts"] = True  # constants as nodes
    if rng.random() < 0.4:
        r["raw"] = True
    if rng.random() < 0.3:
        r["opset"] = 19
    if n2 and rng.random() < 0.15:  # a vector as the input
        r["input"] = [rng.choice([1, 2, 5, 12])]
        r["ops"] = ops[n4 + 1:]
    return r


HWC_VERSIONS = {"Conv2D": "direct_block", "MaxPooling2D": "channels_last", "AveragePooling2D": "channels_last"}


def sample_recipe_hwc(rng: random.Random):
    """Chains the channels_last generation supports: convolutions, poolings, activations."""
    r = sample_recipe(rng, n2=0, kinds4=["conv", "conv", "maxpool", "avgpool", "act"])
    for o in r["ops"]:
        if o["op"] == "conv":
            p = rng.choice([0, 0, 1])
            o.update(p=[p] * 4, d=1)
            o.pop("auto", None)
            o["kw"] = o["kh"]
        if o["op"] == "act" and o["f"] == "Silu":
            o["f"] = "Tanh"
    r["hwc"] = True
    return r


# ---- every operator with every kind of attribute, one at a time ---------------
NAMES = ["/m/{}/Conv_output_0", "{}:0", "n {}", "n\u00e9{}", "%d%s{}", "output_{}", "int{}", "{}.weight", "a;b{}", "#{}", "[{}]", "{}/*", "\"{}\"", "{{{{{}}}}}", "0{}"]
UNARY = ["Relu", "Tanh", "Sigmoid", "LeakyRelu"]


def sample_forms(rng: random.Random):
    """Ways to write a model that leave what it computes alone, and models no program of one input and one output computes."""
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(["dead", "dead", "dead", "after", "tail", "names", "names", "nokernel", "in2", "out2", "inner2"])
        f = {"k": k, "a": rng.random(), "b": rng.random(), "op": rng.choice(UNARY), "n": rng.choice(NAMES)}
        if not any(o["k"] == k for o in out):
            out.append(f)
    return out


def apply_forms(m, forms):
    """The model in other forms -> (model, whether it may be refused, whether it must be)."""
    m = onnx.ModelProto.FromString(m.SerializeToString())
    g = m.graph
    may = must = False
    elem = g.input[0].type.tensor_type.elem_type
    floats = {v.name for v in [*g.value_info, *g.output] if v.type.tensor_type.elem_type == elem} - {
        n.output[0] for n in g.node if n.op_type == "Constant"} | {"input"}
    shape = {v.name: [d.dim_value for d in v.type.tensor_type.shape.dim] for v in [*g.input, *g.value_info, *g.output]}
    out = g.output[0].name

    def dead(f, src, name):
        """A node reading a tensor, anywhere after it in the list."""
        at = max([i for i, n in enumerate(g.node) if src in n.output], default=-1) + 1
        at += int(f["b"] * (len(g.node) - at + 1))
        nodes = list(g.node)
        nodes.insert(at, helper.make_node(f["op"], [src], [name], name=f"{f['op']}_{name}"))
        del g.node[:]
        g.node.extend(nodes)
        floats.add(name)
        shape[name] = shape[src]

    def pick(f, among):
        among = sorted(among)
        return among[int(f["a"] * len(among))]

    for f in forms:
        if f["k"] == "dead":
            dead(f, pick(f, floats), "unread")
        elif f["k"] == "after":
            dead({**f, "b": 1}, "unread" if "unread" in floats else "input", "unread_last")
        elif f["k"] == "tail":
            dead(f, out, "unread_tail")
        elif f["k"] == "nokernel":
            for n in g.node:
                if n.op_type == "Conv":
                    keep = [a for a in n.attribute if a.name != "kernel_shape"]
                    may |= len(keep) < len(n.attribute)
                    del n.attribute[:]
                    n.attribute.extend(keep)
        elif f["k"] == "in2":
            must = True
            src = pick(f, {i for n in g.node for i in n.input} & floats or {"input"})
            for n in g.node:
                for i, x in enumerate(n.input):
                    if x == src:
                        n.input[i] = "sum_of_inputs"
            at = max([i for i, n in enumerate(g.node) if src in n.output], default=-1) + 1
            nodes = list(g.node)
            nodes.insert(at, helper.make_node("Add", [src, "second"], ["sum_of_inputs"], name="Add_second"))
            del g.node[:]
            g.node.extend(nodes)
            g.input.append(helper.make_tensor_value_info("second", elem, shape[src]))
            shape["sum_of_inputs"] = shape[src]
        elif f["k"] == "out2":
            may = True
            dead(f, pick(f, floats), "second_output")
            g.output.append(helper.make_tensor_value_info("second_output", elem, shape["second_output"]))
        elif f["k"] == "inner2":
            # a value on the way to the output, as the debugging tool asks for
            inner = sorted(floats & {o for n in g.node for o in n.output} & {i for n in g.node for i in n.input} - {out})
            if inner:
                x = inner[int(f["a"] * len(inner))]
                g.output.append(helper.make_tensor_value_info(x, elem, shape[x]))
                may = True
    for f in forms:
        if f["k"] == "names":
            new = {}

            def rename(x, f=f, new=new):
                return x if x in ("", "input") else new.setdefault(x, f["n"].format(x))

            for n in g.node:
                n.name = rename(n.name)
                for xs in (n.input, n.output):
                    for i, x in enumerate(xs):
                        xs[i] = rename(x)
            for v in [*g.input, *g.output, *g.value_info, *g.initializer]:
                v.name = rename(v.name)
    if any(f["k"] != "names" for f in forms):
        del g.value_info[:]
        m = onnx.shape_inference.infer_shapes(m, strict_mode=True)
    onnx.checker.check_model(m)
    return m, may, must


def _catalogue():
    """Short chains of operators (sources counted from the end), systematically; ["2d"] chains start from a vector."""
    out = []
    acts = [None, "Relu", None, "Sigmoid", "LeakyRelu", None, "Tanh"]

    def e(*ops, **kw):
        out.append(([{"src": [-1], **o} for o in ops], kw))

    n = 0
    pads = [dict(p=[0] * 4), dict(p=[1] * 4), dict(p=[1, 0, 0, 1]), dict(p=[0, 1, 1, 0]), dict(p=[0] * 4, auto="SAME"),
            dict(p=[0] * 4, auto="SAME", auto_kind="SAME_LOWER"), dict(p=[0] * 4, auto="VALID")]
    for kh, kw in [(1, 1), (2, 2), (3, 3), (3, 2), (1, 3)]:
        for p in pads:
            n += 1
            e({"op": "conv", "kh": kh, "kw": kw, "s": 1 + n % 2, "d": 2 if n % 5 == 0 and "auto" not in p else 1, "f": 1 + n % 4, "bias": n % 4 > 0, "act": acts[n % 7], **p})
    e({"op": "bn", "act": None, "eps": None})
    e({"op": "bn", "act": "Relu", "eps": 1e-3})
    for f in [*ACTS, "Silu"]:
        e({"op": "act", "f": f})
        e({"op": "gemm", "m": 4, "act": f if f in FUSED else None}, {"op": "act", "f": f}, two=True)
    for lo, hi in [(None, 0.25), (-0.125, None), (None, None), (0.0, 6.0)]:
        e({"op": "act", "f": "Clip", "lo": lo, "hi": hi})
    e({"op": "act", "f": "LeakyRelu", "alpha": 0.25})
    for kind in ("maxpool", "avgpool"):
        for k in (2, 3):
            for p in [dict(p=[0] * 4), dict(p=[1] * 4), dict(p=[1, 0, 0, 1]), dict(p=[0, 1, 1, 0]), dict(p=[0] * 4, auto="SAME")]:
                n += 1
                e({"op": kind, "k": k, "s": 1 + n % 2, **p})
    e({"op": "gap"}, square=True)
    for f in ["Add", "Mul", "Sub", "Div", "Max", "Min", "Mean"]:
        n += 1
        e({"op": "act", "f": "Tanh"}, {"op": "merge", "f": f, "src": [-2, -1], "act": acts[n % 7]})
        e({"op": "reduce", "f": "ReduceMean", "axes": [[2, 3], [1], [3]][n % 3]}, {"op": "merge", "f": f, "src": [[-2, -1], [-1, -2]][n % 2], "act": acts[(n + 1) % 7]})
        e({"op": "merge", "f": f, "src": [-1, -1], "same": True})
        e({"op": "gemm", "m": 5}, {"op": "act", "f": "Tanh"}, {"op": "merge", "f": f, "src": [-2, -1]}, two=True)
        if f in ("Max", "Min", "Mean"):
            e({"op": "act", "f": "Tanh"}, {"op": "act", "f": "Relu"}, {"op": "merge", "f": f, "src": [-1, -2, -3]})
            e({"op": "act", "f": "Tanh"}, {"op": "reduce", "f": "ReduceMean", "axes": [2]}, {"op": "merge", "f": f, "src": [-3, -1, -2, -1]})
    for f in ["Add", "Mul", "Sub", "Div"]:
        for kind in ["full", "chan", "row", "scalar"]:
            for swap in (False, True):
                n += 1
                e({"op": "const", "f": f, "kind": kind, "swap": swap, "pos": n % 3 > 0, "neutral": n % 3, "act": acts[n % 7]})
        e({"op": "const", "f": f, "kind": "full", "swap": bool(n % 2)}, two=True)
    for ax in (1, 2, 3):
        e({"op": "act", "f": "Tanh"}, {"op": "concat", "src": [-2, -1], "axis": ax})
        e({"op": "act", "f": "Tanh"}, {"op": "act", "f": "Relu"}, {"op": "concat", "src": [-1, -3, -2], "axis": ax, "v": "neg"})
        e({"op": "tile", "rep": [2 if ax == a else 1 for a in (1, 2, 3)]}, {"op": "concat", "src": [-1, -2], "axis": ax})
    e({"op": "gemm", "m": 5}, {"op": "concat", "src": [-2, -1], "axis": 1}, two=True)
    for mode in ["constant", "edge", "reflect", "wrap"]:
        for p, cp, v in [([1, 1, 1, 1], [0, 0], None), ([2, 0, 1, 0], [0, 0], None), ([0, 1, 0, 2], [0, 0], "nocv"), ([1, 0, 0, 2], [1, 0], None),
                         ([0, 2, 1, 0], [0, 1], "axes"), ([1, 1, 2, 0], [0, 0], "axes")]:
            n += 1
            e({"op": "pad", "mode": mode, "p": p, "cp": cp, "cv": 0.0 if v == "nocv" else [0.5, -1.25][n % 2], **({"v": v} if v else {})}, opset=19)
    for perm in [(0, 1, 3, 2), (0, 2, 1, 3), (0, 2, 3, 1), (0, 3, 1, 2), (0, 3, 2, 1)]:
        e({"op": "transpose", "perm": list(perm)})
    for rep in [(1, 2, 1), (1, 1, 2), (2, 1, 1), (2, 2, 2)]:
        e({"op": "tile", "rep": list(rep)})
    for ax in (1, 2, 3):
        for v in (None, "neg"):
            e({"op": "gather", "axis": ax, "idx": [2, 0, 3, 1][:2 + ax % 2 + (v is None)], **({"v": v} if v else {})})
            e({"op": "gather_elements", "axis": ax, "n": 2, "iseed": ax, **({"v": v} if v else {})})
    for f in ["ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceProd"]:
        for axes in [[1], [2], [3], [1, 2], [1, 3], [2, 3], [1, 2, 3]]:
            n += 1
            v = [None, None, "neg", "defkeep", "nokeep" if len(axes) == 3 else None][n % 5]
            e({"op": "reduce", "f": f, "axes": axes, **({"v": v} if v else {})}, small=f == "ReduceProd")
        e({"op": "reduce", "f": f, "axes": [2], "v": "all"}, small=f == "ReduceProd")
    for mode in ["nearest", "linear", "cubic"]:
        for ctm in ["asymmetric", "half_pixel", "align_corners", "pytorch_half_pixel"]:
            for scale in ([2, 2], [0.5, 1.5], [1, 3]):
                n += 1
                v = [None, None, "scales", "defctm", "exo", "defnm", "defmode"][n % 7]
                e({"op": "resize", "mode": mode, "scale": list(scale), "ctm": ctm, "ca": [None, -0.5][n % 2],
                   "nm": ["floor", "ceil", "round_prefer_floor", "round_prefer_ceil"][n % 4], **({"v": v} if v else {})})
    for mode in ["linear", "cubic", "linear"]:
        for ctm in ["asymmetric", "half_pixel", "align_corners", "pytorch_half_pixel"]:
            for axis in (2, 3):  # a line, or a column
                n += 1
                up = [[1, 2], [1, 1.5], [2, 2]][n % 3]
                e({"op": "reduce", "f": "ReduceMean", "axes": [axis]},
                  {"op": "resize", "mode": mode, "scale": up if axis == 2 else up[::-1], "ctm": ctm, "ca": [None, -0.5][n % 2], "nm": "floor"})
    for mode in ["edge", "reflect", "wrap"]:
        e({"op": "pad", "mode": mode, "p": [1, 0, 1, 1], "cp": [1, 1], "cv": 0.0}, opset=19)
        e({"op": "reduce", "f": "ReduceMean", "axes": [2]}, {"op": "pad", "mode": mode, "p": [0, 1, 0, 2], "cp": [1, 0], "cv": 0.0}, opset=19)
    e({"op": "reduce", "f": "ReduceMean", "axes": [2]}, {"op": "conv", "kh": 1, "kw": 3, "s": 1, "p": [0, 1, 0, 1], "f": 3, "d": 1, "bias": True, "act": "Relu"})
    e({"op": "reduce", "f": "ReduceMean", "axes": [3]}, {"op": "conv", "kh": 3, "kw": 1, "s": 1, "p": [1, 0, 1, 0], "f": 3, "d": 1, "bias": True, "act": None})
    for nm in ["floor", "ceil", "round_prefer_floor", "round_prefer_ceil"]:
        for ctm in ["asymmetric", "half_pixel", "align_corners"]:
            e({"op": "resize", "mode": "nearest", "scale": [1.5, 0.5], "ctm": ctm, "nm": nm})
    for ax in (1, 2, 3):
        e({"op": "softmax", "axis": ax, **({"v": "neg"} if ax == 2 else {})})
    e({"op": "softmax", "axis": 1, "v": "noaxis"})
    e({"op": "gemm", "m": 6}, {"op": "softmax", "axis": 1}, two=True)
    for v in EXOTIC:
        for q in (0, 1):
            e({"op": "exotic", "v": v, "q": q}, one=v in ("matmulleft", "matmulright", "bigconst"))
    for q in range(4):
        e({"op": "reshape", "q": q})
    e({"op": "drop"})
    e({"op": "flatten"}, {"op": "unsqueeze"})
    for tb in (0, 1):
        for bias in (True, False):
            for al, be in ((1.0, 1.0), (0.5, 1.5)):
                n += 1
                e({"op": "gemm", "m": 3 + n % 3, "tb": tb, "bias": bias, "alpha": al, "beta": be, "act": acts[n % 7]}, two=True)
    for add, b1 in ((True, True), (True, False), (False, False)):
        n += 1
        e({"op": "matmul", "m": 4, "add": add, "b1": b1, "act": acts[n % 7]}, two=True)
    e({"op": "transpose", "perm": [0, 1, 3, 2]}, {"op": "matmul4", "src": [-2, -1]}, one=True)
    e({"op": "transpose", "perm": [0, 1, 3, 2]}, {"op": "matmul4", "src": [-1, -2]}, one=True)
    return out


CATALOGUE = random.Random(5).sample(_catalogue(), len(_catalogue()))


def sample_focus(rng: random.Random, j: int):
    """A network about entry j of the catalogue, with another one behind it half of the time."""
    size = len(CATALOGUE)
    first, kw = CATALOGUE[j % size]
    second, kw2 = CATALOGUE[(j + size // 2) % size] if rng.random() < 0.7 else ([], {})
    c = 1 if kw.get("one") or kw2.get("one") else rng.choice([2, 2, 3])
    h, w = rng.sample([3, 4, 5] if not kw.get("small") else [2, 3, 4], 2)
    if kw.get("square") or kw2.get("square") or rng.random() < 0.15:
        w = h
    if kw.get("two"):
        first, second, kw, kw2 = first, second if kw2.get("two") else [], kw, kw2
    ops = []
    if rng.random() < 0.2:
        ops.append({"op": "conv", "src": [-1], "kh": 1, "kw": 1, "s": 1, "p": [0] * 4, "f": c, "d": 1, "act": None})
    if kw.get("two"):
        ops.append({"op": "flatten", "src": [-1]})
    ops += first
    if second and kw2.get("two") and not kw.get("two"):
        ops.append({"op": "flatten", "src": [-1]})
    ops += second
    r = {"input": [c, h, w], "ops": [dict(o) for o in ops], "wseed": rng.randrange(1 << 31), "names": "plain", "opset": 19 if kw.get("opset") or kw2.get("opset") or rng.random() < 0.2 else OPSET}
    if rng.random() < 0.15:
        r["consts"] = True
    if rng.random() < 0.4:
        r["raw"] = True
    return r
