"""Networks, their references and the real code generator, as the checks use them."""

from __future__ import annotations

import contextlib
import io
import json
import logging
import os
import random
import subprocess
import sys
from pathlib import Path

import numpy as np

from dst.common import REPO, Skip  # puts the sources on the path

import onnx
import onnxruntime as ort  # noqa: E402

import acetone_nnet  # noqa: E402
from acetone_nnet import CodeGenerator  # noqa: E402

from dst import netgen  # noqa: E402

assert acetone_nnet.__file__.startswith(f"{REPO}/src/"), acetone_nnet.__file__
logging.disable(logging.CRITICAL)
ort.set_default_logger_severity(4)

DT = {"f32": np.float32, "f64": np.float64}
VERSIONS = {
    "default": None,
    "6loops": {"Conv2D": "6loops"},
    "std_gemm_nn": {"Conv2D": "std_gemm_nn"},
}


def sample_net(rng: random.Random, opt_p=0.4, f64_p=0.1, hwc_p=0.12, bin_p=0.0, focus=None, **kw):
    """A JSON network case: recipe plus how code is generated for it. A number as the focus names an entry of the catalogue of operators."""
    c = {"dtype": "f64" if rng.random() < f64_p else "f32"}
    if focus is not None:
        c["recipe"] = netgen.sample_focus(rng, focus)
        c["versions"] = rng.choice([None, {"Conv2D": "std_gemm_nn"}, {"Conv2D": "6loops"}])
    elif rng.random() < hwc_p:
        c["recipe"] = netgen.sample_recipe_hwc(rng)
        c["gdf"] = "channels_last"
        c["dtype"] = "f32"
        c["versions"] = dict(netgen.HWC_VERSIONS)
    else:
        c["recipe"] = netgen.sample_recipe(rng, **kw)
        c["versions"] = rng.choice([None, None, {"Conv2D": "std_gemm_nn"}, {"Conv2D": "6loops"}])
    c["opt"] = rng.random() < opt_p
    if rng.random() < bin_p:
        c["bin"] = True
    c["page"] = rng.choice([4096, 4096, 64, 16, 8192])
    c["xseed"] = rng.randrange(1 << 31)
    return c


def build(case):
    b = netgen.Builder(case["recipe"], DT[case["dtype"]])
    try:
        m = b.build()
    except (netgen.Infeasible, onnx.shape_inference.InferenceError) as e:
        raise Skip(f"infeasible recipe: {str(e)[:60]}") from None
    return m, b


def draw(seed, n, size, dtype):
    """Tests in [-1, 1]; for every fourth seed with zeros of both signs, ties and rows that are all alike."""
    g = np.random.default_rng(seed)
    X = g.uniform(-1, 1, size=(n, 1, size)).astype(dtype)
    if seed % 4 == 3:
        at = g.random(X.shape) < g.choice([0.1, 0.4, 0.9])
        X[at] = g.choice(np.array([0.0, -0.0, 0.0, 1, -1, 0.5, -0.25], dtype), size=int(at.sum()))
        for i in range(n):
            if g.random() < 0.15:
                X[i] = g.choice(np.array([0.0, -0.0, -1, 1], dtype))
    return X


def make_inputs(case, b, n):
    return draw(case["xseed"], n, int(np.prod(b.shape["input"])), DT[case["dtype"]])


class Ref:
    def tolerance(self, X, ref, base=1e-4):
        """How far two correct evaluations may be apart: a base tolerance, widened where
        the network itself amplifies a perturbation of one part in a million."""
        sc = max(1.0, float(np.abs(ref).max()))
        tol = base * sc
        r = np.random.default_rng(7)
        for _ in range(3):
            y = self((X * (1 + 1e-6 * r.uniform(-1, 1, X.shape))).astype(X.dtype))
            d = np.abs(y - ref).max()
            if np.isfinite(d):
                tol = max(tol, 30 * float(d))
        return tol


class OnnxRef(Ref):
    """The evaluator that comes with the ONNX definition, for what onnxruntime has no kernel for."""

    def __init__(self, m, b):
        from onnx.reference import ReferenceEvaluator
        self.shape = b.shape["input"]
        if any(a.name == "auto_pad" for n in m.graph.node for a in n.attribute):
            raise Skip("auto_pad in float64")  # onnx.reference sizes the output of VALID convolutions wrongly
        try:
            self.s = ReferenceEvaluator(m)
        except Exception as e:  # noqa: BLE001
            raise Skip(f"no reference: {type(e).__name__}") from None

    def __call__(self, X):
        try:
            with np.errstate(all="ignore"):
                return np.stack([np.asarray(self.s.run(None, {"input": x.reshape(self.shape)})[0]).ravel() for x in X])
        except Exception as e:  # noqa: BLE001
            raise Skip(f"the reference fails: {type(e).__name__}") from None


class FnRef(Ref):
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, X):
        return self.fn(X)


def reference(m, b):
    try:
        return OrtRef(m, b)
    except Skip:
        if b.dtype != np.float64:
            raise
        return OnnxRef(m, b)


class OrtRef(Ref):
    def __init__(self, m, b):
        so = ort.SessionOptions()
        so.intra_op_num_threads = 1
        so.inter_op_num_threads = 1
        so.graph_optimization_level = ort.GraphOptimizationLevel.ORT_DISABLE_ALL
        self.shape = b.shape["input"]
        try:
            self.s = ort.InferenceSession(m.SerializeToString(), so)
        except Exception as e:  # noqa: BLE001
            raise Skip(f"no onnxruntime kernel: {type(e).__name__}") from None

    def __call__(self, X):
        try:
            return np.stack([self.s.run(None, {"input": x.reshape(self.shape)})[0].ravel() for x in X])
        except Exception as e:  # noqa: BLE001
            raise Skip(f"onnxruntime fails: {type(e).__name__}") from None


# ------------------------------------------------------------------ a model of any format
class Subject:
    """What the generator is given, and what it is expected to compute."""

    def __init__(self, src, ref, n_in, dtype, used, kw, loose=False, never=False):
        self.src, self.ref, self.n_in, self.dtype, self.used, self.kw, self.loose = src, ref, n_in, dtype, used, kw, loose
        self.never = never  # no generated program computes this model

    def inputs(self, case, n):
        return draw(case["xseed"], n, self.n_in, self.dtype)


def sample_options(rng):
    """Options of form that most cases leave alone."""
    return {k: v for k, v in (("to_hex", False), ("verbose", True), ("external_input", True), ("function_name", "net")) if rng.random() < 0.12}


class Quantized(Subject):
    def inputs(self, case, n):
        return np.array(self.X[np.arange(n) % len(self.X)])


def sample_quantized(rng):
    """A network for a target with a fixed-point configuration, which is looked for in the working directory."""
    from dst.checks import c16
    c = c16.case(rng, 0, "quick")
    r = {"fmt": "quant", **{k: c[k] for k in ("type", "sizes", "layers", "seed", "n", "opt", "amp")}, "flags": rng.random() < 0.7}
    return {"recipe": r, "versions": None, "opt": c["opt"], "bin": c["bin"], "page": c["page"], "xseed": 0, "dtype": "f32"}


def sample_any(rng, quant_p=0.06, **kw):
    if kw.get("focus") is None and rng.random() < quant_p:
        c = sample_quantized(rng)
        c["recipe"]["flags"] = False
        return c
    return sample_subject(rng, **kw)


def quantized(r, d):
    from dst.checks import c16
    m, conf, X, _, dt, _ = c16.make(r)
    if r["flags"]:
        conf.update(cflags="-O2", ldflags="-lm", compiler="gcc")
    (d / "AVX512VNNI.json").write_text(json.dumps(conf))
    s = Quantized(m, None, r["sizes"][0], dt, ["quant"], {"target": "AVX512VNNI"})
    s.X = X.astype(dt)
    return s


LOOSE = {"exotic", "resize:exo"}


def sample_subject(rng: random.Random, onnx_p=0.6, **kw):
    """A network case in any of the formats."""
    if kw.get("focus") is not None or rng.random() < onnx_p:
        c = sample_net(rng, **kw)
        c["as"] = rng.choice(["proto", "proto", "path", "str"])
        return c
    from dst import formats
    f = rng.choice(sorted(formats.SAMPLERS))
    r = formats.SAMPLERS[f](rng)
    c = {"recipe": r, "versions": rng.choice([None, None, {"Conv2D": "std_gemm_nn"}, {"Conv2D": "6loops"}]), "opt": rng.random() < 0.3,
         "page": rng.choice([4096, 4096, 64, 16]), "xseed": rng.randrange(1 << 31)}
    c["dtype"] = "f64" if r.get("dtype") == "float64" else "f32"
    return c


def subject(case, d, prefix="model"):
    r = case["recipe"]
    if r.get("fmt") == "quant":
        return quantized(r, Path(d))
    if "fmt" in r:
        from dst import formats
        with quiet():
            try:
                src, ref, n, dt, used, kw = formats.load(r, Path(d))
            except formats.Infeasible as e:
                raise Skip(str(e)) from None
        return Subject(src, FnRef(ref), n, dt, [f"{r['fmt']}.{u}" for u in used], kw, bool(r.get("odd")))
    m, b = build(case)
    loose = any(u.split(":")[0] in LOOSE or u in LOOSE for u in b.used_ops)
    ref, never = reference(m, b), False
    if r.get("forms"):
        m, may, never = netgen.apply_forms(m, r["forms"])
        loose |= may
    src = m
    if case.get("as", "proto") != "proto":
        p = Path(d) / f"{prefix}.onnx"
        onnx.save(m, str(p))
        src = p if case["as"] == "path" else str(p)
    return Subject(src, ref, int(np.prod(b.shape["input"])), DT[case["dtype"]], b.used_ops + [f"form:{f['k']}" for f in r.get("forms", [])],
                   {}, loose, never)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def generator(case, model, X=None, n=0, **over):
    kw = dict(nb_tests=n if X is None else len(X), test_dataset=X, versions=case.get("versions"),
              optimization=case.get("opt", False), gen_data_format=case.get("gdf", "channels_first"),
              bin_dataset=case.get("bin", False), target_page_size=case.get("page", 4096))
    kw.update(over)
    return CodeGenerator(model, **kw)


def parse_rows(text):
    return np.array([[float.fromhex(t) for t in line.split()] for line in text.splitlines()])


def make(d, target="inference", env=None, timeout=200):
    return subprocess.run(["make", "-s", "-C", str(d), target], capture_output=True, text=True, timeout=timeout,
                          env={**os.environ, **(env or {})}, check=False)


def shrink_recipe(r):
    """Smaller recipes: drop operators, then simplify."""
    ops = r["ops"]
    n = len(ops)
    k = n
    while k > 1:
        k = k // 2
        for s in range(0, n, k):
            if k < n:
                yield {**r, "ops": ops[:s] + ops[s + k:]}
    if n == 1 and not r.get("hwc"):
        yield {**r, "ops": []}
    for i in range(len(r.get("forms", []))):
        yield {**r, "forms": r["forms"][:i] + r["forms"][i + 1:]}
    if n <= 6:
        for i in range(n):
            if ops[i].get("act"):
                yield {**r, "ops": [*ops[:i], {**ops[i], "act": None}, *ops[i + 1:]]}
        if len(r["input"]) == 1:
            return
        for k in ("consts", "raw", "opset"):
            if r.get(k):
                yield {a: b for a, b in r.items() if a != k}
        for i in range(n):
            if ops[i].get("v") and ops[i]["op"] != "exotic":
                yield {**r, "ops": [*ops[:i], {a: b for a, b in ops[i].items() if a != "v"}, *ops[i + 1:]]}
        c, h, w = r["input"]
        for s in ([1, h, w], [c, max(2, h - 1), w], [c, h, max(2, w - 1)]):
            if s != [c, h, w]:
                yield {**r, "input": s}


def shrink_net(case):
    if "fmt" in case["recipe"]:
        from dst import formats
        for r in formats.shrink(case["recipe"]):
            yield {**case, "recipe": r}
    else:
        for r in shrink_recipe(case["recipe"]):
            yield {**case, "recipe": r}
    if case.get("as", "proto") != "proto":
        yield {**case, "as": "proto"}
    if case.get("opt"):
        yield {**case, "opt": False}
    if case.get("bin"):
        yield {**case, "bin": False}
    if case.get("versions") and not case.get("gdf"):
        yield {**case, "versions": None}
    if case.get("page", 4096) != 4096:
        yield {**case, "page": 4096}
