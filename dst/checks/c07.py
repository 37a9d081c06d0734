"""C07: what is generated depends on the model and the options only."""

from __future__ import annotations

import json
import os
import shutil
import subprocess
import sys

from dst import net
from dst.common import VERIF, Skip, digest

ID = "C07"
LEVEL = "exploration"
QUICK, THOROUGH = 16, 600
RULE = ("a case is a list of models and two or three interpreters, each with its own hash seed, address layout, clock, random generators, "
        "directory order, working directory, order of generations and activity between them; every file each one generates for a model "
        "must be byte-identical; distinct by list of models and interpreters")
REAL = ["CodeGenerator and its importers/templates, in fresh interpreters"]
STUB = ["clock (time.time), order of directory listings, seeds of the global random generators"]
ASSUMPTIONS = ["address layout is fixed by disabling its randomisation and perturbed by seeded allocations"]
PER = 20


def case(rng, i, tier):
    subs = []
    for _ in range(PER):
        c = net.sample_quantized(rng) if rng.random() < 0.12 else net.sample_subject(rng, onnx_p=0.65, bin_p=0.2, n4=rng.choice([1, 2, 4, 6]), n2=rng.choice([0, 1, 2]))
        c["n"] = rng.choice([0, 1, 3, -1, -3])  # negative: the generator draws the dataset
        c["more"] = net.sample_options(rng)
        c["mk"] = rng.choice([None, 0, 1])
        subs.append(c)
    envs = [{"hash": 0, "seed": 1, "t0": 0, "step": 0, "gc": 0, "order": list(range(PER)), "loc": "C.UTF-8"}]
    for _ in range(rng.choice([1, 2])):
        o = list(range(PER))
        rng.shuffle(o)
        envs.append({"hash": rng.randrange(1, 1 << 32), "seed": rng.randrange(1 << 40), "t0": rng.choice([0, 1e9, 4e9]),
                     "step": rng.choice([-1, 0, 1e-6, 86400]), "gc": rng.choice([0, 0, 50]), "order": o, "loc": rng.choice(["C", "C.UTF-8", "POSIX"])})
    return {"subs": subs, "envs": envs}


_pre = None


def fixed_layout():
    global _pre
    if _pre is None:
        p = shutil.which("setarch")
        _pre = [p, "-R"] if p and subprocess.run([p, "-R", "true"], capture_output=True, check=False).returncode == 0 else []
    return _pre


def run_env(c, e, d, k):
    w = d / f"w{k}"
    w.mkdir()
    spec = {**e, "subs": c["subs"], "dir": str(w), "order": [i for i in e["order"] if i < len(c["subs"])]}
    (d / f"spec{k}.json").write_text(json.dumps(spec))
    env = {**os.environ, "PYTHONHASHSEED": str(e["hash"]), "LC_ALL": e["loc"], "PYTHONPATH": str(VERIF)}
    p = subprocess.run([*fixed_layout(), sys.executable, "-m", "dst.genworker", str(d / f"spec{k}.json"), str(d / f"out{k}.json")],
                       env=env, capture_output=True, text=True, timeout=230, check=False, cwd=str(VERIF))
    if p.returncode:
        raise RuntimeError(f"worker failed: {p.stderr[-800:]}")
    return json.loads((d / f"out{k}.json").read_text())


def execute(c, d):
    res = [run_env(c, e, d, k) for k, e in enumerate(c["envs"])]
    base, viol, files, acts = res[0]["out"], [], 0, {}
    for r in res:
        for k, v in r["acts"].items():
            acts[k] = acts.get(k, 0) + v
    for k, r in enumerate(res[1:], 1):
        for i in sorted(base, key=int):
            a, b = base[i], r["out"][i]
            if a != b:
                names = sorted(f for f in set(a) | set(b) if a.get(f) != b.get(f))
                fmt = c["subs"][int(i)]["recipe"].get("fmt", "onnx")
                viol.append(["DIFFERS", f"model {i} ({fmt}): {', '.join(names)[:200]} differ in interpreter {k}"])
    for i in base:
        files += sum(1 for f in base[i] if "." in f or f == "Makefile")
    if not files:
        raise Skip("no model is generated")
    return {"viol": viol[:5], "stats": {"files_compared": files * (len(res) - 1), "interpreters": len(res), "models": len(base), "activity": acts,
                                        "clock_reads": sum(r["clock"] for r in res)},
            "sig": digest(c), "sample": {"files": files}}


def shrink(c):
    n = len(c["subs"])
    if len(c["envs"]) > 2:
        for k in range(1, len(c["envs"])):
            yield {**c, "envs": c["envs"][:k] + c["envs"][k + 1:]}
    for k in (n // 2, n // 4, 1):
        if 0 < k < n:
            for s in range(0, n, k):
                keep = list(range(s, min(n, s + k)))
                yield {"subs": [c["subs"][i] for i in keep],
                       "envs": [{**e, "order": [keep.index(i) for i in e["order"] if i in keep]} for e in c["envs"]]}
    if n == 1:
        for x in net.shrink_net(c["subs"][0]):
            yield {**c, "subs": [x]}
