"""C04: generated code computes what the model means."""

from __future__ import annotations

import numpy as np

from dst import csim_build as cs
from dst import formats, net, netgen
from dst.checks import c01
from dst.common import Skip, digest

ID = "C04"
LEVEL = "exploration"
QUICK, THOROUGH = 1200, 60000
RULE = ("a case is a random model (ONNX file or object, NNet, JSON, exported PyTorch program), a dataset, generation options and a "
        "seeded schedule; the generated program runs whole under the simulator on corrupted contexts and each row of its output is "
        "compared with an independent evaluation of the model; distinct by model recipe and options")
REAL = c01.REAL
STUB = c01.STUB
ASSUMPTIONS = ["the references are onnxruntime (onnx.reference for float64), torch in float64, and evaluators of this machinery for NNet and JSON",
               "equal means within 1e-4 of the output's scale, or within what a relative change of 1e-6 of the input causes",
               "models are made of the operators and attributes listed in DESIGN.md; those marked there as exotic may be refused by the importer, not miscompiled"]
prepare = c01.prepare


def case(rng, i, tier):
    c = net.sample_subject(rng, focus=None if i % 2 else i // 2, bin_p=0.15, n4=rng.choice([1, 1, 2, 2, 3, 4, 6]), n2=rng.choice([0, 0, 1, 2]))
    if "fmt" not in c["recipe"] and rng.random() < 0.2:
        c["recipe"]["forms"] = netgen.sample_forms(rng)
    elif c["recipe"].get("fmt") == "torch" and rng.random() < 0.5:
        c["recipe"] = formats.sample_torch_odd(rng)
    elif c["recipe"].get("fmt") == "json" and rng.random() < 0.25:
        c["recipe"] = formats.sample_json_odd(rng)
        c["dtype"] = "f64" if c["recipe"]["dtype"] == "float64" else "f32"
    c["n"] = rng.choice([1, 2, 3])
    c["script"] = [cs.sample_sched(rng), f"SCRIBBLE 0 {rng.choice([0, 1, 4])} {rng.randrange(1 << 20)}", "MAIN out.txt"]
    return c


def known(case, kind, text):
    return "lrn" if any(o.get("v") == "lrn" for o in case["recipe"].get("ops", [])) else None


def generate(c, s, X, d, **kw):
    with net.quiet():
        g = net.generator(c, s.src, X, **{**s.kw, **kw})
        g.generate_c_files(d)
    return g


def finite(s, X):
    ref = s.ref(X)
    if not np.isfinite(ref).all() or np.abs(ref).max() > 1e6:
        raise Skip("the reference overflows")
    return ref


def differs(got, ref, tol, who):
    if got.shape != ref.shape:
        return [["WRONG", f"{who}: {got.shape} values for {ref.shape}"]]
    e = np.abs(got - ref)
    if not (e <= tol).all():
        k = np.unravel_index(np.nanargmax(np.where(np.isnan(e), np.inf, e)), e.shape)
        return [["WRONG", f"{who}: test {k[0]} output {k[1]} is {got[k]!r}, the model gives {ref[k]!r} (tolerance {tol:.2g})"]]
    return []


def execute(c, d):
    s = net.subject(c, d)
    X = s.inputs(c, c["n"])
    ref = finite(s, X)
    tol = s.ref.tolerance(X, ref)
    try:
        generate(c, s, X, d / "gen", makefile_properties=dict(cs.SIM_PROPS))
        if s.never:
            return {"viol": [["TRANSLATED", "a program of one input is generated for a model of two"]]}
    except Exception as e:  # noqa: BLE001
        if s.never:
            return {"viol": [], "sig": digest([c["recipe"], c.get("opt")]), "nontrivial": True}
        if s.loose:
            raise Skip("the importer refuses the model") from None
        return {"viol": [["REFUSED", f"generation fails on a supported model: {type(e).__name__}: {str(e)[:300]}"]]}
    try:
        exe = cs.build(d / "gen", "-O1")
    except cs.BuildError as e:
        if "is empty" in str(e):
            raise Skip("binary parameters of a network without parameters") from None
        if s.loose:
            raise Skip("the code of an exotic model does not compile") from None
        return {"viol": [["BUILD", f"generated code does not compile: {str(e)[-300:]}"]]}
    r = cs.run(exe, c["script"], s.dtype, d / "gen")
    viol = [v for v in r.viol if v[0] in c01.VIOL - {"RACE"}]
    o = r.ops[-1]
    if not viol:
        if o.rc != 0 or o.file is None:
            viol.append(["OUTPUT", f"the program failed ({o.rc})"])
        else:
            rows = c01.rows_of_main(o, s.dtype)
            if len({len(x) for x in rows}) != 1:
                viol.append(["OUTPUT", "rows of unequal length"])
            else:
                viol += differs(np.array(rows, dtype=np.float64), ref.astype(np.float64), tol, "generated program")
    return {"viol": viol, "stats": {**cs.stats_of(r), "layers": {k: s.used.count(k) for k in set(s.used)},
                                    "formats": {c["recipe"].get("fmt", "onnx"): 1}},
            "sig": digest([c["recipe"], c.get("versions"), c.get("opt"), c.get("gdf"), c.get("bin")]), "traces": [r.trace],
            "nontrivial": bool(s.used), "sample": {"trace": r.trace, "outputs": int(ref.size)}}


def shrink(c):
    if c["n"] > 1:
        yield {**c, "n": 1}
    if len(c["script"]) > 1:
        yield {**c, "script": c["script"][-1:]}
    yield from net.shrink_net(c)
