"""C12: the training hook saves and restores the whole of the network."""

from __future__ import annotations

import ctypes
import re
import shutil
import subprocess

import numpy as np
import onnx
from onnx import numpy_helper

from dst import csim_build as cs
from dst import net
from dst.checks import c01
from dst.checks.c11 import ERR
from dst.common import Skip, digest

ID = "C12"
LEVEL = "exploration"
QUICK, THOROUGH = 300, 6000
RULE = ("a case is a network, two or three sets of weights for it, and a history of copy_weights, batch_loop, inference, whole-program runs and "
        "save_weights, the latter with faults at its file operations, under seeded schedules; non-trivial when weights were copied and the "
        "network has some; distinct by network, history and schedule trace")
REAL = c01.REAL
STUB = c01.STUB
ASSUMPTIONS = ["the programs are generated with binary parameters: in text form the parameters are constants that copy_weights may not change",
               "networks differ in the weights and biases of convolutions and matrix products; running means and constants of other layers are equal"]
prepare = c01.prepare


def case(rng, i, tier):
    while True:
        c = net.sample_net(rng, n4=rng.choice([1, 2, 2, 3]), n2=rng.choice([0, 1, 2]), hwc_p=0.1)
        try:
            if variant(net.build(c)[0], 0, 0)[1] or rng.random() < 0.1:
                break
        except Skip:
            pass
    c["bin"] = True
    c["as"] = "proto"
    c["n"] = rng.choice([1, 2, 3, 33])
    k = c["k"] = rng.choice([2, 2, 3])
    h = []
    for _ in range(rng.randint(3, 9)):
        o = rng.choice(["copy", "copy", "copy", "batch", "batch", "main", "call", "scribble", "save", "save", "save"])
        if o == "copy":
            h.append(["copy", rng.randrange(k)])
        elif o == "batch":
            n = rng.choice([0, 1, 2, 5, 31, 32, 33, 40])
            h.append(["batch", cs.sample_sched(rng), [rng.randrange(c["n"]) for _ in range(n)]])
        elif o == "main":
            h.append(["main", cs.sample_sched(rng)])
        elif o == "call":
            h.append(["call", rng.randrange(32), rng.randrange(c["n"])])
        elif o == "scribble":
            h.append(["scribble", rng.choice([0, 1, 2, 4]), rng.randrange(1 << 20)])
        else:
            f = [[rng.choice(["write", "write", "close", "open", "disk", "short"]), rng.choice([rng.random(), 0.0, 0.999]), rng.choice(sorted(ERR)),
                  rng.choice([1, 3, 100])] for _ in range(rng.choice([0, 1, 1, 2]))]
            h.append(["save", rng.choice([0, 1, 5, 512]), f])
    c["history"] = [*h, ["save", 0, []]]
    c["so"] = rng.random() < 0.4
    c["flat"] = [rng.choice([None, None, None, "zero", "one", "bias"]) for _ in range(k)]
    return c


def variant(m, k, seed, flat=None):
    """The same model with other weights in its convolutions and products."""
    m = onnx.ModelProto.FromString(m.SerializeToString())
    use = {}
    for n in m.graph.node:
        for j, x in enumerate(n.input):
            use.setdefault(x, set()).add((n.op_type, j))
    g = np.random.default_rng([seed, k])
    changed = 0
    for t in m.graph.initializer:
        u = use.get(t.name, set())
        ok = u and all((op == "Conv" and j in (1, 2)) or (op == "Gemm" and j in (1, 2)) or op == "MatMul" for op, j in u)
        if ok and flat and (flat != "bias" or len(t.dims) == 1):  # arrays that are alike
            a = numpy_helper.to_array(t)
            t.CopyFrom(numpy_helper.from_array(np.full(a.shape, 0.125 if flat == "one" else 0, a.dtype), t.name))
        elif ok and k:
            a = numpy_helper.to_array(t)
            b = (a * g.uniform(0.25, 1.0, a.shape) * g.choice([-1, 1], a.shape) + g.uniform(-0.1, 0.1, a.shape)).astype(a.dtype)
            t.CopyFrom(numpy_helper.from_array(b, t.name))
        changed += bool(ok)
    return m, changed


def through_library(d, p, rows, X, total, dt):
    """The shared library as a trainer uses it: batch_loop, copy_weights and save_weights in one process."""
    r = net.make(d, "inference.so", env={"SIM_CFLAGS": "-O1"})
    if r.returncode:
        return [["BUILD", f"the shared library of the training hook does not compile: {(r.stderr or r.stdout)[-200:]}"]]
    lib = ctypes.CDLL(str(d / "inference.so"))
    viol = []
    ptr = lambda a: a.ctypes.data_as(ctypes.c_void_p)  # noqa: E731
    for step in (0, 1, 0, len(p) - 1):
        raw, at, args = p[step], 0, []
        for n in total:
            args.append(ctypes.create_string_buffer(raw[at:at + n], n))
            at += n
        lib.copy_weights(*args)
        del args
        out = np.full((len(X), rows[step][0].size), 7, dt)
        lib.batch_loop(ptr(out), ptr(np.ascontiguousarray(X)), len(X))
        if any(a.tobytes() != b.tobytes() for a, b in zip(out, rows[step])):
            e = np.abs(out.astype(np.float64) - np.stack(rows[step])).max()
            if not e <= 1e-4 * max(1, float(np.abs(np.stack(rows[step])).max())):  # another optimisation level may round otherwise
                viol.append(["WRONG", f"shared library: with weights {step} the predictions differ by {e:.3g}"])
        n = lib.save_weights(str(d / "w.bin").encode())
        if n != sum(total) or (d / "w.bin").read_bytes() != raw:
            viol.append(["SAVE", f"shared library: save_weights returns {n} of {sum(total)} and the file is "
                         f"{'right' if (d / 'w.bin').read_bytes() == raw else 'wrong'}"])
    return viol[:2]


def execute(c, d):
    m0, b = net.build(c)
    X = net.make_inputs(c, b, c["n"])
    dt = net.DT[c["dtype"]]
    exes, p, rows, pars = [], [], [], None
    viol = []
    for k in range(c["k"]):
        m, changed = variant(m0, k, c["xseed"], (c.get("flat") or [None] * 9)[k])
        try:
            with net.quiet():
                net.generator(c, m, X, makefile_properties=dict(cs.SIM_PROPS)).generate_c_files(d / f"g{k}")
        except Exception as e:  # noqa: BLE001
            raise Skip(f"not generated: {type(e).__name__}") from None
        try:
            exes.append(cs.build(d / f"g{k}", glue=True))
        except cs.BuildError as e:
            if "is empty" in str(e):
                raise Skip("network without parameters") from None
            raise Skip("the generated code does not compile") from None
        solo = []
        for s in range(c["n"]):
            solo += ["SCRIBBLE 100 0 0", f"CALL 100 {s} 0"]
        r = cs.run(exes[k], ["SCHED run 1 0 1", "SAVEW ref.bin", *solo], dt, d / f"g{k}")
        viol += [v for v in r.viol if v[0] in c01.VIOL]
        if viol:
            return {"viol": viol[:3]}
        sv = r.ops[0]
        if pars is not None and r.pars != pars:
            viol.append(["SAVE", f"parameters of the hook depend on the weights: {r.pars} {pars}"])
        pars = r.pars
        if sv.rc != sum(pars) or len(sv.file or b"") != sum(pars):
            viol.append(["SAVE", f"save_weights returns {sv.rc} and writes {len(sv.file or b'')} bytes of {sum(pars)}"])
        at, raw = cs.stored(d / f"g{k}", names := cs.write_glue(d / f"g{k}"), pars)
        if None in at:
            viol.append(["SAVE", f"{names[at.index(None)]} is not in the object file of the parameters"])
        elif b"".join(raw) != sv.file:
            viol.append(["SAVE", "save_weights does not write the parameters that the program was generated with"])
        elif any(a + n > b for a, n, b in zip(at, pars, at[1:])):
            viol.append(["SAVE", f"save_weights does not write the parameters in the order of the parameter file: {names}"])
        p.append(sv.file)
        io = sv.io
        rows.append([o.pred for o in r.ops if o.cmd == "CALL"])
    if viol:
        return {"viol": viol[:3]}
    total = sum(pars)
    script, expect, cur = [], [], 0
    for o in c["history"]:
        if o[0] == "copy":
            cur = o[1]
            script += [f"COPYW\n{p[cur].hex()}"]
            expect.append(("COPYW", cur))
        elif o[0] == "batch":
            script += [o[1], f"BATCH {len(o[2])} " + " ".join(map(str, o[2]))]
            expect.append(("BATCH", cur, o[2]))
        elif o[0] == "main":
            script += [o[1], "MAIN out.txt"]
            expect.append(("MAIN", cur, list(range(c["n"]))))
        elif o[0] == "call":
            script += [f"CALL {o[1]} {o[2]} 1"]
            expect.append(("CALL", cur, [o[2]]))
        elif o[0] == "scribble":
            script += [f"SCRIBBLE -1 {o[1]} {o[2]}"]
            expect.append(("SCRIBBLE", cur))
        else:
            script += ["NOFAULTS", f"STDIO {o[1]}"]
            for kind, frac, err, ln in o[2]:
                if kind == "disk":
                    script.append(f"DISK {int(frac * (total + 1))}")
                else:
                    cnt = max(1, total // o[1]) if o[1] > 1 else max(io[3], 1)
                    nth = 1 if kind in ("open", "close") else 1 + int(frac * cnt)
                    e, a = (0, ln) if kind == "short" else (ERR[err], -1)
                    script.append(f"FAULT {'write' if kind == 'short' else kind} {nth} {e} {a}")
            script.append("SAVEW w.bin")
            script += ["NOFAULTS", "STDIO 0"]
            expect.append(("SAVEW", cur))
    r = cs.run(exes[0], script, dt, d / "g0")
    viol += [v for v in r.viol if v[0] in c01.VIOL | {"CONFINE", "INPUTWRITE"}]
    faulty = 0
    for o, e in zip(r.ops, expect):
        k = e[1]
        if o.cmd == "SAVEW" and o.io is not None:
            hard = o.io[0]
            faulty += bool(hard)
            if o.rc == total and o.file != p[k]:
                viol.append(["SAVE", f"save_weights reports all {total} bytes, but the file "
                             + ("is missing" if o.file is None else f"({len(o.file)} bytes) does not hold the current weights")])
            if not hard and o.rc != total:
                viol.append(["SAVE", f"save_weights returns {o.rc} for {total} bytes although nothing failed"])
        elif o.cmd in ("BATCH", "CALL", "MAIN"):
            if o.cmd == "MAIN":
                if o.rc != 0 or o.file is None:
                    viol.append(["OUTPUT", f"the program fails ({o.rc})"])
                    continue
                got = c01.rows_of_main(o, dt)
            elif o.pred is None:
                continue
            else:
                got = o.pred.reshape(len(e[2]), -1) if e[2] else []
            if len(got) != len(e[2]):
                viol.append(["OUTPUT", f"{o.cmd}: {len(got)} rows for {len(e[2])}"])
            for s, g in zip(e[2], got):
                if g.tobytes() != rows[k][s].tobytes():
                    viol.append(["WRONG", f"{o.cmd} after copy_weights: test {s} is not predicted as by the network those weights come from"])
                    break
    if c["so"] and not viol:
        shutil.copytree(d / "g0", d / "so", ignore=shutil.ignore_patterns("*.o", "inference", "inference.so"))
        viol += through_library(d / "so", p, rows, X, pars, dt)
    copies = sum(1 for o in c["history"] if o[0] == "copy")
    st = {"copies": copies, "saves": sum(1 for o in c["history"] if o[0] == "save"), "saves_with_errors": faulty, "parameters": len(pars),
          "weights_that_vary": changed, "libraries": int(c["so"])}
    return {"viol": viol[:4], "stats": {**cs.stats_of(r), **st}, "traces": [r.trace], "nontrivial": bool(pars) and copies > 0,
            "sig": digest([c["recipe"], c["history"], r.trace]), "sample": {"trace": r.trace, "bytes": total, "parameters": len(pars)}}


def shrink(c):
    h = c["history"]
    for i in range(len(h)):
        if len(h) > 1:
            yield {**c, "history": h[:i] + h[i + 1:]}
    if c["so"]:
        yield {**c, "so": False}
    if c["k"] > 2 and all(o[0] != "copy" or o[1] < 2 for o in h):
        yield {**c, "k": 2}
    for i, o in enumerate(h):
        if o[0] in ("batch", "main") and not o[1].startswith("SCHED run"):
            yield {**c, "history": [*h[:i], [o[0], "SCHED run 1 0 1", *o[2:]], *h[i + 1:]]}
        if o[0] == "batch" and len(o[2]) > 1:
            yield {**c, "history": [*h[:i], [o[0], o[1], o[2][:len(o[2]) // 2]], *h[i + 1:]]}
        if o[0] == "save":
            for q in range(len(o[2])):
                yield {**c, "history": [*h[:i], [o[0], o[1], o[2][:q] + o[2][q + 1:]], *h[i + 1:]]}
    for x in net.shrink_net(c):
        if x.get("bin"):
            yield x
