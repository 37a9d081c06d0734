"""C13: a model file that is damaged or cannot be read is refused, never half used."""

from __future__ import annotations

import shutil
from pathlib import Path

import numpy as np
import onnx

from dst import damage, formats, iofault, net
from dst.common import Skip, digest

ID = "C13"
LEVEL = "exploration"
QUICK, THOROUGH = 800, 20000
RULE = ("a case is a model file (NNet, JSON, ONNX, ONNX with external data) and a history of loads: of the file cut, with blocks zeroed, lost or "
        "written twice, with the tail of an older file, with failing or short reads, and of the intact file in between; non-trivial when the "
        "content was damaged or a read failed or was short; distinct by model and history")
REAL = ["CodeGenerator, the importers, Python, json, onnx and protobuf reading files", "the command line of the generator in part of the runs"]
STUB = ["system calls that open and read files below the model's directory (fault injection in front of the real ones)"]
ASSUMPTIONS = ["damage of the content of ONNX files is limited to cuts: their other damage (zeroed weights) is a valid model",
               "lost and repeated pieces (NNet) are at least 64 bytes or whole lines, so that they change the number of values"]
TRACE_MEASURE = "hash of the outcomes of the loads and their read operations"
KINDS = {"nnet": ["cut", "cut", "cutline", "zero", "drop", "dup", "dupline", "dropline", "stale"], "json": ["cut", "cut", "zero", "stale"],
         "onnx": ["cut", "cutline"], "ext": ["cut"]}


def case(rng, i, tier):
    f = rng.choice(["nnet", "nnet", "json", "onnx", "ext"])
    if f in ("nnet", "json"):
        r = formats.SAMPLERS[f](rng)
        c = {"recipe": r, "dtype": "f64" if r.get("dtype") == "float64" else "f32", "versions": rng.choice([None, {"Conv2D": "6loops"}]),
             "opt": rng.random() < 0.3, "page": 4096, "xseed": rng.randrange(1 << 31)}
    else:
        c = net.sample_net(rng, n4=rng.choice([1, 2, 3]), n2=rng.choice([0, 1, 2]), hwc_p=0.05)
    c["file"] = f
    c["bin"] = rng.random() < 0.4 and f != "ext"
    c["as"] = rng.choice(["path", "str"])
    c["act"] = rng.choice(["gen", "gen", "gen", "cli"]) if f != "ext" and not c.get("gdf") else "gen"
    h = []
    for _ in range(rng.randint(4, 10)):
        k = rng.choice(["damage", "damage", "damage", "damage", "read", "read", "ok"])
        h.append(["damage", damage.sample_damage(rng, KINDS[f])] if k == "damage" else ["read", damage.sample_reads(rng)] if k == "read" else ["ok"])
    c["history"] = h
    return c


def model_file(c, d):
    """Writes the model; returns the path the generator is given, the file that is damaged and the generator's options."""
    if c["file"] in ("nnet", "json"):
        with net.quiet():
            try:
                src, _, _, _, _, kw = formats.load(c["recipe"], d)
            except formats.Infeasible as e:
                raise Skip(str(e)) from None
        return Path(src), Path(src), kw
    m, _ = net.build(c)
    p = d / "model.onnx"
    if c["file"] == "onnx":
        onnx.save(m, str(p))
        return p, p, {}
    if not any(t.HasField("raw_data") and len(t.raw_data) for t in m.graph.initializer):
        m = onnx.ModelProto.FromString(m.SerializeToString())
        ts = [onnx.numpy_helper.from_array(onnx.numpy_helper.to_array(t), t.name) for t in m.graph.initializer]
        del m.graph.initializer[:]
        m.graph.initializer.extend(ts)
    onnx.save_model(m, str(p), save_as_external_data=True, all_tensors_to_one_file=True, location="weights.bin", size_threshold=0)
    w = d / "weights.bin"
    if not w.exists() or not w.stat().st_size:
        raise Skip("no external data")
    return p, w, {}


def content(d):
    return {p.name: p.read_bytes() for p in sorted(d.iterdir()) if p.is_file()} if d.exists() else {}


def execute(c, d):
    home = d / "in"
    home.mkdir()
    path, victim, kw = model_file(c, home)
    raw = victim.read_bytes()
    n = [0]

    def load(out):
        if c["act"] == "cli":
            from dst.checks.c09 import operation

            class S:
                src = path
            S.kw = kw
            operation({**c, "n": 1}, S, None, {})[1](out)
        else:
            net.generator(c, str(path) if c["as"] == "str" else path, None, n=1, **kw).generate_c_files(out)

    def once(faults=()):
        n[0] += 1
        out = d / f"o{n[0]}"

        def run():
            with net.quiet():
                load(out)
        if c["file"] == "ext":  # the onnx library itself may crash on external data that is too short
            try:
                r = iofault.attempt(run, home, faults, reads=True)
            except RuntimeError as e:
                r = {"raised": str(e), "log": [], "text": ""}
        else:
            r = damage.reading(run, home, faults)
        got = content(out)
        shutil.rmtree(out, ignore_errors=True)
        return r, got

    r0, want = once()
    if r0["raised"] or not want:
        raise Skip(f"not generated: {r0['raised']}")
    log0 = r0["log"]
    if not any(x.split()[1] == "read" for x in log0):
        raise RuntimeError("the simulator saw no read of the model")
    viol, trace = [], []
    st = {"loads": 0, "damaged": {}, "refused": 0, "same_result": 0, "read_faults": {}}
    touched = 0
    for h in c["history"]:
        faults = ()
        if h[0] == "damage":
            b = damage.apply(raw, h[1])
            if b is None:
                continue
            victim.write_bytes(b)
            touched += 1
            st["damaged"][h[1][0]] = st["damaged"].get(h[1][0], 0) + 1
        elif h[0] == "read":
            faults = damage.place_reads(h[1], log0)
        r, got = once(faults)
        victim.write_bytes(raw)
        st["loads"] += 1
        bad = damage.hard(r)
        for x in r["log"]:
            w = x.split()
            if w[-1] in ("error", "short", "eintr"):
                touched += 1
                st["read_faults"][f"{w[1]} {w[-1]}"] = st["read_faults"].get(f"{w[1]} {w[-1]}", 0) + 1
        trace.append([h[0], r["raised"], len(r["log"]), bad])
        what = f"{h[1]} of {len(raw)} bytes" if h[0] == "damage" else f"{[x for x in r['log'] if not x.endswith(' ok')]}" if faults else "intact file"
        if not r["raised"]:
            st["same_result"] += 1
            if got != want:
                wrong = sorted(k for k in set(want) | set(got) if want.get(k) != got.get(k))
                viol.append(["SILENT", f"{what}: accepted, and the generated code differs from that of the complete model ({', '.join(wrong[:4])})"])
        else:
            st["refused"] += 1
            if h[0] != "damage" and not bad:
                viol.append(["REFUSED", f"{what}: refused ({r['raised']}: {r.get('text')}) although nothing failed for good"])
    return {"viol": viol[:4], "stats": st, "traces": [digest(trace)], "nontrivial": touched > 0,
            "sig": digest([c["recipe"], c["file"], c["history"]]), "sample": {"bytes": len(raw), "outcomes": trace[:6]}}


def shrink(c):
    h = c["history"]
    if len(h) > 1:
        for i in range(len(h)):
            yield {**c, "history": [h[i]]}
        for i in range(len(h)):
            yield {**c, "history": h[:i] + h[i + 1:]}
    for i, x in enumerate(h):
        if x[0] == "read" and len(x[1]) > 1:
            for k in range(len(x[1])):
                yield {**c, "history": [*h[:i], ["read", [x[1][k]]], *h[i + 1:]]}
    if c["act"] != "gen":
        yield {**c, "act": "gen"}
    for x in net.shrink_net(c):
        if x.get("as") != "proto":
            yield x
