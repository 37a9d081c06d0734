"""C16: a quantized program computes exactly the fixed-point arithmetic of its configuration."""

from __future__ import annotations

import json
import os

import numpy as np
import onnx
from onnx import helper, numpy_helper

from dst import csim_build as cs
from dst import net
from dst.checks import c01
from dst.common import Skip, digest

ID = "C16"
LEVEL = "exploration"
QUICK, THOROUGH = 500, 9000
RULE = ("a case is a random network of matrix products, additions and rectifiers with a fixed-point format for each, quantized tests, and a script of "
        "whole-program runs, batch_loop calls and weight copies under seeded schedules; non-trivial when a parallel region had at least two threads and "
        "was switched; distinct by network, formats, script and schedule trace")
REAL = [*c01.REAL, "quantization of parameters, evaluation of the quantized layers in Python"]
STUB = c01.STUB
ASSUMPTIONS = ["networks are those the quantization supports: MatMul, Add of a constant, Relu", "sums of products stay within the temporary type, "
               "parameters within their format", "a result that does not fit its format wraps"]
prepare = c01.prepare
TYPES = {"short": ("short", "int16", "int", "int32", 16), "schar": ("signed char", "int8", "int", "int32", 8), "char_short": ("signed char", "int8", "short", "int16", 8),
         "int": ("int", "int32", "long", "int64", 32)}


def case(rng, i, tier):
    sizes = [rng.choice([1, 2, 3, 5, 8])] + [rng.choice([1, 2, 3, 5, 9, 12]) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    t = rng.choice(["short", "short", "short", "schar", "int", "char_short"])
    bits = TYPES[t][4]
    L = []
    for _ in sizes[1:]:
        L.append({"wq": bits - 1 - rng.choice([0, 0, 1, 2]), "out": rng.choice([0, 1, 2, 3, 5]), "bias": rng.random() < 0.7, "act": rng.random() < 0.5,
                  "left": rng.random() < 0.3})
    n = rng.choice([1, 2, 3, 5, 31, 32, 33, 64, 65])
    c = {"type": t, "sizes": sizes, "layers": L, "seed": rng.randrange(1 << 31), "n": n, "bin": rng.random() < 0.4, "page": rng.choice([4096, 64, 16]),
         "opt": rng.random() < 0.3, "amp": rng.choice([1.0, 1.0, 0.3, 0.02]), "via": rng.choice(["proto", "path"]), "given": rng.choice(["int", "float", "wide"])}
    c["lost"] = rng.random() if rng.random() < 0.15 else None
    c["ext"] = [rng.choice([" ", "\n", "\t", "  \n"]), rng.choice([0, 0, 1, 2, 33])] if c["lost"] is None and rng.random() < 0.3 else None
    script = []
    for _ in range(rng.randint(2, 5)):
        script.append(cs.sample_sched(rng))
        if rng.random() < 0.5:
            script.append("MAIN out.txt")
        else:
            k = rng.choice([0, 1, 2, 31, 32, 33, 40, 64])
            script.append(f"BATCH {k} " + " ".join(str(rng.randrange(n)) for _ in range(k)))
    c["script"] = script
    return c


def q(bits, frac):
    return f"Q{bits - 1 - frac}.{frac}"


def make(c):
    """-> model, target configuration, tests as integers, expected results"""
    ctype, pyt, tmp, tpy, bits = TYPES[c["type"]]
    tb = np.iinfo(tpy).bits
    g = np.random.default_rng(c["seed"])
    sz = c["sizes"]
    nodes, inits, cfg = [], [], {}
    fin = bits - 1
    lim = float(2 ** (tb - 1) - 1)
    X = np.rint(g.uniform(-1, 1, (c["n"], 1, sz[0])) * c["amp"] * (2 ** (bits - 1) - 1)).astype(np.int64)
    v = X[:, 0, :]
    wrap = lambda a: a.astype(np.int64).astype(pyt).astype(np.int64)  # noqa: E731
    cfg["X"] = {"out": q(bits, fin)}
    cur, over = "X", False
    for i, (a, b, o) in enumerate(zip(sz, sz[1:], c["layers"])):
        fw = o["wq"]
        big = 2.0 ** (bits - 1 - fw)
        W = g.uniform(-0.98, 0.98, (a, b)) * big
        Wq = np.rint(W * 2.0 ** fw)
        peak = max(1.0, float((np.abs(v) @ np.abs(Wq)).max()))
        if peak > lim * 0.9:  # keep the sums of products within the temporary type
            W = W * (lim * 0.9 / peak)
        W = W.astype(np.float32 if bits < 32 else np.float64)
        Wq = np.rint(W.astype(np.float64) * 2.0 ** fw).astype(np.int64)
        fo = max(0, bits - 1 - o["out"])
        if fin + fw < fo:
            fo = fin + fw
        acc = v @ Wq
        if (np.abs(v) @ np.abs(Wq)).max() > lim or np.abs(Wq).max() >= 2 ** (bits - 1):
            raise Skip("sums beyond the temporary type")
        inits.append(numpy_helper.from_array(W.astype(np.float32), f"W{i}"))
        if bits == 32:  # the model holds float32
            Wq = np.rint(W.astype(np.float32) * np.float32(2.0 ** fw)).astype(np.int64)
            acc = v @ Wq
        cfg[f"W{i}"] = {"out": q(bits, fw)}
        nodes.append(helper.make_node("MatMul", [cur, f"W{i}"], [f"m{i}"], name=f"MatMul{i}"))
        cfg[f"MatMul{i}"] = {"in": q(bits, fin), "params": q(bits, fw), "out": q(bits, fo)}
        v = wrap(acc >> (fin + fw - fo))
        cur = f"m{i}"
        if o["bias"]:
            B = (g.uniform(-0.9, 0.9, (b,)) * 2.0 ** (bits - 1 - fo) * g.choice([1.0, 0.1])).astype(np.float32)
            Bq = np.rint(B * np.float32(2.0 ** fo)).astype(np.int64)
            if np.abs(Bq).max() >= 2 ** (bits - 1):
                raise Skip("bias beyond its format")
            inits.append(numpy_helper.from_array(B, f"B{i}"))
            cfg[f"B{i}"] = {"out": q(bits, fo)}
            cfg[f"Add{i}"] = {"in": q(bits, fo), "params": q(bits, fo), "out": q(bits, fo)}
            nodes.append(helper.make_node("Add", [f"B{i}", cur] if o["left"] else [cur, f"B{i}"], [f"a{i}"], name=f"Add{i}"))
            cur = f"a{i}"
            over |= bool((wrap(v + Bq) != v + Bq).any())
            v = wrap(v + Bq)
        if o["act"] and i < len(sz) - 2:
            if over and c["opt"]:
                raise Skip("a fused rectifier sees the sum before it wraps")
            nodes.append(helper.make_node("Relu", [cur], [f"r{i}"], name=f"Relu{i}"))
            cur = f"r{i}"
            v = np.maximum(v, 0)
        fin = fo
    gr = helper.make_graph(nodes, "g", [helper.make_tensor_value_info("X", 1, [1, 1, 1, sz[0]])],
                           [helper.make_tensor_value_info(cur, 1, [1, 1, 1, sz[-1]])], inits)
    m = helper.make_model(gr, opset_imports=[helper.make_opsetid("", 13)])
    conf = {"name": "sim", "cflags": "-O1", "quantization": {"dtype": ctype, "temp_dtype": tmp, "pydtype": pyt, "temp_pydtype": tpy, "layers": cfg}}
    return m, conf, X, v, np.dtype(pyt), over


def execute(c, d):
    m, conf, X, want, dt, over = make(c)
    if c["via"] == "path":
        onnx.save(m, str(d / "m.onnx"))
    (d / "AVX512VNNI.json").write_text(json.dumps(conf))
    given = X.astype(dt) if c["given"] == "int" else X.astype(np.int64) if c["given"] == "wide" else X.astype(np.float64)
    if c["given"] == "float" and not c["bin"]:
        given = X.astype(dt)
    if c.get("lost") is not None:  # a configuration that forgets a layer
        cfg = conf["quantization"]["layers"]
        k = [x for x in cfg if x != "X"]
        del cfg[k[int(c["lost"] * len(k))]]
        (d / "AVX512VNNI.json").write_text(json.dumps(conf))
    viol = []
    here = os.getcwd()
    os.chdir(d)  # where the generator looks for the configuration
    try:
        with net.quiet():
            g = net.generator({**c, "versions": None}, str(d / "m.onnx") if c["via"] == "path" else m, given, target="AVX512VNNI", makefile_properties=dict(cs.SIM_PROPS))
            g.generate_c_files(d / "gen")
            if c["ext"]:  # a program that reads its inputs
                net.generator({**c, "versions": None}, m, None, n=c["n"], external_input=True, target="AVX512VNNI",
                              makefile_properties=dict(cs.SIM_PROPS)).generate_c_files(d / "ext")
            (d / "py").mkdir()
            if given.dtype == dt:
                g.compute_inference(str(d / "py"))
    except Exception as e:  # noqa: BLE001
        if c.get("lost") is not None:
            return {"viol": [], "stats": {"refused": 1}, "traces": ["refused"], "sig": digest([c["sizes"], c["layers"], c["lost"]]), "nontrivial": False}
        return {"viol": [["REFUSED", f"a supported quantized network is refused: {type(e).__name__}: {str(e)[:200]}"]]}
    finally:
        os.chdir(here)
    if given.dtype == dt and not over:  # numpy adds in a wider type, the program in the format's
        py = np.array([[int(t) for t in ln.split()] for ln in (d / "py" / "output_python.txt").read_text().splitlines()])
        if py.shape != want.shape or (py != want).any():
            viol.append(["PYTHON", f"the Python evaluation differs from the fixed-point result: {py[:1].tolist()} for {want[:1].tolist()}"])
    try:
        exe = cs.build(d / "gen", "-O1")
        ext = cs.build(d / "ext", "-O1", external=True) if c["ext"] else None
    except cs.BuildError as e:
        return {"viol": [["BUILD", f"the generated code does not compile: {str(e)[-200:]}"]]}
    calls = [f"CALL {k % 32} {s} 1" for k, s in enumerate(range(min(c["n"], 3)))]
    r = cs.run(exe, ["SCHED run 1 0 1", *calls, *c["script"]], dt, d / "gen")
    viol += [v for v in r.viol if v[0] in c01.VIOL | {"CONFINE", "INPUTWRITE"}]
    ops = [o for o in r.ops if o.cmd in ("MAIN", "BATCH", "CALL")]
    lines = [s for s in [*calls, *c["script"]] if s.split()[0] in ("MAIN", "BATCH", "CALL")]
    for o, line in zip(ops, lines):
        w = line.split()
        if w[0] == "MAIN":
            if o.rc != 0 or o.file is None:
                viol.append(["OUTPUT", f"the program fails ({o.rc})"])
                continue
            try:
                got = np.array([[int(t) for t in ln.split()] for ln in o.file.decode().splitlines()], dtype=np.int64)
            except ValueError:
                viol.append(["OUTPUT", "the output is not a table of integers"])
                continue
            exp = want
        elif o.pred is None:
            continue
        else:
            idx = [int(x) for x in w[2:]] if w[0] == "BATCH" else [int(w[2])]
            exp = want[idx]
            got = o.pred.astype(np.int64).reshape(exp.shape)
        if got.shape != exp.shape or (got != exp).any():
            k = int(np.argmax((got != exp).any(axis=1))) if got.shape == exp.shape else -1
            viol.append(["WRONG", f"{w[0]}: row {k} is {got[k].tolist() if len(got) else got.tolist()}, its fixed-point result {exp[k].tolist() if len(exp) else ''}"])
    if ext and not viol:
        sep, more = c["ext"]
        b = sep.join([str(x) for x in X.ravel()] + ["7"] * more).encode() + b"\n"
        re_ = cs.run(ext, [f"FILE in.txt\n{b.hex()}", c["script"][0] if c["script"][0].startswith("SCHED") else "SCHED run 1 0 1", "MAIN out.txt in.txt"], dt, d / "ext")
        viol += [v for v in re_.viol if v[0] in c01.VIOL | {"CONFINE", "INPUTWRITE"}]
        o = re_.ops[-1]
        got = [[int(t) for t in ln.split()] for ln in (o.file or b"").decode().splitlines()]
        if not viol and (o.rc != 0 or got != want.tolist()):
            viol.append(["WRONG", f"the program that reads its inputs ends with {o.rc} and writes {got[:1]}, not {want[:1].tolist()}"])
    return {"viol": viol[:4], "stats": {**cs.stats_of(r), "external": int(bool(ext)), "types": {c["type"]: 1}, "python_evaluated": int(given.dtype == dt and not over)}, "traces": [r.trace],
            "sig": digest([c["sizes"], c["layers"], c["type"], c["script"], r.trace]),
            "nontrivial": r.stats.get("maxteam", 0) >= 2 and r.stats.get("switches", 0) > 2, "sample": {"trace": r.trace, "first": want[0].tolist()[:6]}}


def shrink(c):
    if len(c["sizes"]) > 2:
        for i in range(1, len(c["sizes"])):
            yield {**c, "sizes": c["sizes"][:i] + c["sizes"][i + 1:], "layers": c["layers"][:i - 1] + c["layers"][i:]}
    for i, s in enumerate(c["sizes"]):
        if s > 1:
            yield {**c, "sizes": [*c["sizes"][:i], 1, *c["sizes"][i + 1:]]}
    for i, o in enumerate(c["layers"]):
        for k in ("bias", "act", "left"):
            if o[k]:
                yield {**c, "layers": [*c["layers"][:i], {**o, k: False}, *c["layers"][i + 1:]]}
    ops, cur = [], []
    for line in c["script"]:
        cur.append(line)
        if line.split()[0] in ("MAIN", "BATCH"):
            ops.append(cur)
            cur = []
    for i in range(len(ops)):
        yield {**c, "script": sum(ops[:i] + ops[i + 1:], [])}
    if c["n"] > 2 and not any("BATCH" in x for x in c["script"]):
        yield {**c, "n": c["n"] // 2}
    for k, v in (("ext", None), ("bin", False), ("opt", False), ("via", "proto"), ("given", "int")):
        if c[k] != v:
            yield {**c, k: v}
