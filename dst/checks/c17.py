"""C17: debug mode shows what every layer computes."""

from __future__ import annotations

import numpy as np
import onnx
import onnxruntime as ort

from dst import csim_build as cs
from dst import net
from dst.checks import c01, c04
from dst.checks.c11 import ERR
from dst.common import Skip, digest

from acetone_nnet import debug

ID = "C17"
LEVEL = "exploration"
QUICK, THOROUGH = 420, 16000
RULE = ("a case is a random model in one of the input formats with one test, a history of inferences on contexts with random contents and of whole "
        "programs, with faults at file operations, and damage to the debug file; the debug file is compared layer by layer with the tensors of the "
        "model (onnxruntime), with the lists of the Python evaluation, and its predictions with the program made without debug mode; "
        "non-trivial when at least one layer was compared; distinct by model, history and trace")
REAL = [*c01.REAL, "acetone_nnet.debug"]
STUB = c01.STUB
ASSUMPTIONS = ["one test, as the debug mode is documented", "intermediate tensors are known for ONNX models; for the other formats the lists of Python and C are compared "
               "with each other and with the output of the model", "the time mode needs headers of its target and is not looked at"]
prepare = c01.prepare
NOLAYER = {"Dropout", "Flatten", "Reshape", "Unsqueeze", "Constant", "Shape"}


def case(rng, i, tier):
    c = net.sample_subject(rng, onnx_p=0.5, focus=None if i % 2 else i // 2, bin_p=0.15, f64_p=0.1, hwc_p=0, opt_p=0.25,
                           n4=rng.choice([1, 2, 3, 5]), n2=rng.choice([0, 1, 2]))
    c["n"] = 1
    c["plain"] = rng.random() < 0.3
    h = []
    for _ in range(rng.randint(0, 4)):
        k = rng.choice(["call", "call", "main", "fault"])
        if k == "call":
            x = rng.choice([0, 3, 101])
            h.append(["call", x, rng.choice([0, 1, 2, 4]), rng.randrange(1 << 20)])
        elif k == "main":
            h.append(["main", cs.sample_sched(rng), rng.choice([0, 1, 2, 4]), rng.randrange(1 << 20)])
        else:
            h.append(["fault", rng.choice(["open", "write", "write", "close", "disk", "short"]), rng.choice([rng.random(), rng.random(), 0.0, 0.999]),
                      rng.choice(sorted(ERR)), rng.choice([1, 3, 100]), rng.choice([0, 1, 7, 64, 512])])
    c["history"] = h
    c["cuts"] = [rng.random() for _ in range(3)]
    c["pick"] = rng.randrange(1 << 20)
    return c


def tensors(m, x):
    """The value of every node's output, in order; what has no layer left out."""
    m = onnx.ModelProto.FromString(m.SerializeToString())
    last = m.graph.output[0].name
    names = [n.output[0] for n in m.graph.node if n.op_type not in NOLAYER]
    m.graph.output.extend(onnx.helper.make_empty_tensor_value_info(n) for n in names if n != last)
    so = ort.SessionOptions()
    so.intra_op_num_threads = 1
    so.graph_optimization_level = ort.GraphOptimizationLevel.ORT_DISABLE_ALL
    try:
        s = ort.InferenceSession(m.SerializeToString(), so)
        got = dict(zip([o.name for o in s.get_outputs()], s.run(None, {"input": x})))
    except Exception as e:  # noqa: BLE001
        raise Skip(f"no onnxruntime kernel: {type(e).__name__}") from None
    return names, [np.asarray(got[n]).ravel() for n in names]


def parse(text):
    """A debug file read by this machinery: {index: (name, values)}, in the order the file has them."""
    lines = text.decode().split("\n")
    if lines.pop() != "" or len(lines) % 2:
        return None
    out = {}
    for a, b in zip(lines[::2], lines[1::2]):
        w = a.split()
        v = np.array([float(t) for t in b.split()])
        if int(w[1]) in out:
            return None
        if int(w[2]):
            v = v.reshape(int(w[3]), int(w[4]), int(w[5])).transpose(1, 2, 0).ravel()
        out[int(w[1])] = (w[0], v)
    return out


def close(a, b, tol):
    return a.shape == b.shape and bool((np.abs(np.asarray(a, np.float64) - np.asarray(b, np.float64)) <= tol * max(1.0, float(np.abs(b).max(initial=0)))).all())


def execute(c, d):
    s = net.subject(c, d)
    X = s.inputs(c, 1)
    ref = c04.finite(s, X)
    tol = max(2e-4, 2 * s.ref.tolerance(X, ref) / max(1.0, float(np.abs(ref).max())))
    fmt = c["recipe"].get("fmt", "onnx")
    mode = "keras" if fmt == "json" and c["pick"] % 2 else "onnx"
    viol = []

    def check(cond, kind, text):
        if not cond:
            viol.append([kind, text])
        return cond

    def gen(where, **kw):
        with net.quiet():
            g = net.generator(c, s.src, X, makefile_properties=dict(cs.SIM_PROPS), **{**s.kw, **kw})
            g.generate_c_files(d / where)
        return g

    try:
        plain = gen("plain")
    except Exception as e:  # noqa: BLE001
        raise Skip(f"not generated: {type(e).__name__}") from None  # a matter of C04
    if mode == "keras" and len(plain.layers) > 1 and plain.layers[1].name == "Softmax":
        mode = "onnx"
    try:
        g = gen("gen", debug_mode=mode)
        (d / "py").mkdir()
        with net.quiet():
            py = g.compute_inference(str(d / "py"))
        py, pt = debug.reorder_outputs(*py)
    except Exception as e:  # noqa: BLE001
        return {"viol": [["REFUSED", f"debug mode fails on a model that is otherwise supported: {type(e).__name__}: {str(e)[:200]}"]]}
    try:
        exe = cs.build(d / "gen", "-O1")
        exe2 = cs.build(d / "plain", "-O1") if c["plain"] else None
    except cs.BuildError as e:
        if "is empty" in str(e):
            raise Skip("binary parameters of a network without parameters") from None
        if s.loose:
            raise Skip("the code of an exotic model does not compile") from None
        return {"viol": [["BUILD", f"code generated in debug mode does not compile: {str(e)[-300:]}"]]}
    script = ["MAIN out.txt", "DUMP debug_file.txt"]
    r0 = cs.run(exe, script, s.dtype, d / "gen")
    viol += [v for v in r0.viol if v[0] in c01.VIOL | {"CONFINE", "INPUTWRITE"}]
    o = r0.ops[0]
    if viol or not check(o.rc == 0 and o.file, "OUTPUT", f"the program fails ({o.rc})"):
        return {"viol": viol[:3]}
    out, whole, io = o.file, r0.ops[1].file, o.io
    pred = np.array(c01.rows_of_main(o, s.dtype), dtype=np.float64)
    viol += c04.differs(pred, ref.astype(np.float64), max(tol * max(1.0, float(np.abs(ref).max())), s.ref.tolerance(X, ref)), "program generated in debug mode")
    if exe2:
        o2 = cs.run(exe2, ["MAIN out.txt"], s.dtype, d / "plain").ops[0]
        check(o2.file == out, "CHANGED", "predictions differ from those of the program generated without debug mode")
    if not check(whole is not None, "MISSING", "the program wrote no debug file"):
        return {"viol": viol[:3]}
    p = parse(whole)
    if not check(p is not None, "WRONG", "the debug file is not a list of layers and values"):
        return {"viol": viol[:3]}
    where = sorted(p)
    # C and Python show the same layers
    names = [f"{p[i][0]} {i}" for i in where]
    check(names == pt, "LAYERS", f"the program shows {names}, the Python evaluation {pt}")
    for i, n, v in zip(where, pt, py):
        check(close(np.asarray(v).ravel(), p[i][1], tol), "WRONG", f"{n}: the program and the Python evaluation show different values")
    f = d / "debug_file.txt"
    f.write_bytes(whole)

    def extracted():
        try:
            return debug.extract_outputs_c(f, g.data_type, len(g.debug_target))
        except Exception:  # noqa: BLE001
            return None

    ext = extracted()
    if check(ext is not None, "READ", "extract_outputs_c fails on a complete debug file"):
        check(ext[1] == names and all(close(np.asarray(a).ravel(), p[i][1], 1e-6) for a, i in zip(ext[0], where)), "READ", "extract_outputs_c returns something else than the debug file holds")
    # each is a tensor of the model
    compared = 0
    if fmt == "onnx":
        m, b = net.build(c)
        tn, tv = tensors(m, X[0].reshape(b.shape["input"]))
        big = any(not np.isfinite(v).all() or np.abs(v).max(initial=0) > 1e6 for v in tv)
        if not big and not viol:
            if not c.get("opt") and not s.loose:
                if check(len(tv) == len(where), "LAYERS", f"{len(where)} layers are shown, the model has {len(tv)}"):
                    for i, n, v in zip(where, tn, tv):
                        compared += 1
                        check(close(p[i][1], v, tol), "WRONG", f"{p[i][0]} {i} does not show the tensor {n} of the model")
                mm = onnx.ModelProto.FromString(m.SerializeToString())
                with net.quiet():
                    _, _, on = debug.debug_onnx(mm, X[0].reshape(b.shape["input"]))
                    check(debug.compare_result(py, on, pt, atol=tol * 10, rtol=tol), "COMPARE", "compare_result finds differences between the evaluations of one model")
                    # some of the layers only
                    k = [j for j in range(len(tn)) if c["pick"] >> j & 1] or [len(tn) - 1]
                    if tn:
                        mm = onnx.ModelProto.FromString(m.SerializeToString())
                        _, idx, on = debug.debug_onnx(mm, X[0].reshape(b.shape["input"]), debug_target=[tn[j] for j in k])
                        sel = debug.extract_outputs_python((py, pt), idx)
                        check(len(on) == len(k) and sel[1] == [pt[j] for j in k if j < len(pt)], "TARGETS", f"of the targets {k}, the layers {sel[1]} and {len(on)} tensors are returned")
                        check(debug.compare_result(sel[0], on, sel[1], atol=tol * 10, rtol=tol), "COMPARE", "compare_result finds differences among selected layers")
            else:
                for i in where:
                    compared += 1
                    check(any(close(p[i][1], v, tol) for v in tv), "WRONG", f"{p[i][0]} {i} shows no tensor of the model")
    elif where and not s.kw.get("normalize"):
        compared = 1
        check(close(p[where[-1]][1], ref[0].astype(np.float64), tol), "WRONG", f"the last layer {p[where[-1]][0]} does not show the output of the model")
    if viol:
        return {"viol": viol[:3]}
    # a comparison never passes over a difference
    if ext and ext[0]:
        k = c["pick"] % len(py)
        other = [np.array(a, np.float64) for a in py]
        other[k].flat[c["pick"] // 7 % other[k].size] += 0.5 * max(1.0, float(np.abs(other[k]).max()))
        with net.quiet():
            check(not debug.compare_result(other, py, pt, atol=1e-3, rtol=1e-3), "COMPARE", f"compare_result passes over a difference in {pt[k]}")
            check(not debug.compare_result(py, other, pt, atol=1e-3, rtol=1e-3), "COMPARE", f"compare_result passes over a difference in {pt[k]}")
            check(not debug.compare_result(py[:-1], py, pt), "COMPARE", "compare_result passes over a missing layer")
        for q in c["cuts"]:
            f.write_bytes(whole[:int(q * len(whole))])
            e = extracted()
            if e is None:
                continue
            alike = len(e[0]) == len(where) and all(close(np.asarray(a).ravel(), p[i][1], 1e-2) for a, i in zip(e[0], where))
            with net.quiet():
                try:
                    same = debug.compare_result(e[0], [p[i][1] for i in where], names, atol=1e-3, rtol=1e-3)
                except Exception:  # noqa: BLE001
                    same = False
            check(not same or alike, "COMPARE", "a debug file that was cut passes for the whole")
    # histories: every inference leaves the complete file of its own values, and failures are reported
    script, runs = [], []
    for h in c["history"]:
        if h[0] == "call":
            script += [f"SCRIBBLE {h[1]} {h[2]} {h[3]}", f"CALL {h[1]} 0 1", "DUMP debug_file.txt"]
        elif h[0] == "main":
            script += [f"SCRIBBLE -1 {h[2]} {h[3]}", h[1], "MAIN out.txt", "DUMP debug_file.txt"]
        else:
            kind, frac, err, ln, buf = h[1:]
            fs = [f"STDIO {buf}"]
            total = len(whole) + len(out)
            if kind == "disk":
                fs.append(f"DISK {int(frac * (total + 1))}")
            else:
                count = max(1, total // buf) if buf > 1 else max(io[3], 1)
                nth = 1 + int(frac * (2 if kind in ("open", "close") else count))
                e, a = (0, ln) if kind == "short" else (ERR[err], -1)
                fs.append(f"FAULT {'write' if kind == 'short' else kind} {nth} {e} {a}")
            runs.append([*fs, "MAIN out.txt", "DUMP debug_file.txt"])  # a process of its own: it may end within the parallel region
    results = [r0]
    failed = 0
    for i, script in enumerate([script, *runs]):
        if not script or viol:
            continue
        r = cs.run(exe, script, s.dtype, d / "gen")
        results.append(r)
        viol += [v for v in r.viol if v[0] in c01.VIOL | {"CONFINE", "INPUTWRITE"}]
        ops = [o for o in r.ops if o.cmd in ("CALL", "MAIN", "DUMP")]
        for a, b in zip(ops[::2], ops[1::2]):
            if not i or not a.io[0]:
                check(a.rc == 0 and b.file == whole, "HISTORY", f"{a.cmd} after other inferences leaves another debug file" if a.rc == 0 else f"{a.cmd} fails ({a.rc})")
            else:
                failed += 1
                check(a.rc != 0 or (b.file == whole and a.file == out), "SILENT", "the program reports success, but its "
                      + ("debug file" if b.file != whole else "output file") + " is not complete")
    r = results[min(1, len(results) - 1)]
    stats = {}
    for x in results:
        for k, v in cs.stats_of(x).items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith("max_") else stats.get(k, 0) + v
    return {"viol": viol[:3], "stats": {**stats, "layers_shown": len(where), "tensors_compared": compared, "runs_with_errors": failed, "formats": {fmt: 1}},
            "sig": digest([c["recipe"], c["history"], [x.trace for x in results]]), "traces": [x.trace for x in results if x.trace], "nontrivial": compared > 0,
            "sample": {"layers": names[:6], "tensors": compared}}


def shrink(c):
    h = c["history"]
    for i in range(len(h)):
        yield {**c, "history": h[:i] + h[i + 1:]}
    if c["plain"]:
        yield {**c, "plain": False}
    yield from net.shrink_net(c)
