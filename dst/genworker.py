"""One interpreter of a simulated history of generations (used by C07):  python -m dst.genworker SPEC OUT

Every source of nondeterminism of the process is set by SPEC: hash seed and address layout (by the parent), clock,
random generators, directory order, working directory, order of and activity between generations, garbage collection.
"""

import contextlib
import gc
import hashlib
import json
import os
import random
import re
import shutil
import sys
import time
from pathlib import Path


def same_length(text, rng):
    """Other weights in the text of a model, digit for digit."""
    return re.sub(r"(\.\d*)(\d)(?=\D)", lambda m: m[1] + str((int(m[2]) + rng.randrange(1, 9)) % 10), text)


@contextlib.contextmanager
def replaced(src, rng):
    """Another model of the same structure and length stands at the same path, or in the same object, for a while."""
    import onnx
    import torch
    from dst.checks.c12 import variant
    if isinstance(src, onnx.ModelProto):
        raw = src.SerializeToString()
        src.CopyFrom(variant(src, 1, rng.randrange(1 << 20))[0])
        yield
        src.ParseFromString(raw)
    elif isinstance(src, (str, Path)) and Path(src).is_file():
        f = Path(src)
        raw, st = f.read_bytes(), f.stat()
        if f.suffix == ".onnx":
            onnx.save(variant(onnx.load(str(f)), 1, rng.randrange(1 << 20))[0], str(f))
        else:
            f.write_text(same_length(raw.decode(), rng))
        yield
        f.write_bytes(raw)
        if rng.random() < 0.5:  # within one tick of the clock of the disk
            os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
    elif isinstance(src, torch.export.ExportedProgram):
        old = {k: v.detach().clone() for k, v in src.state_dict.items()}
        with torch.no_grad():
            for v in src.state_dict.values():
                if v.is_floating_point():
                    v.mul_(0.75)
        yield
        with torch.no_grad():
            for k, v in src.state_dict.items():
                v.copy_(old[k])
    else:
        yield


def main():
    spec = json.loads(Path(sys.argv[1]).read_text())
    rng = random.Random(spec["seed"])
    junk = [bytearray(rng.randrange(16, 4096)) for _ in range(rng.randrange(2000))]
    del junk[::2]
    from dst import net
    import numpy as np
    import torch
    t0 = spec["t0"]
    step = spec["step"]
    n = [0]

    def clock():
        n[0] += 1
        return t0 + n[0] * step
    time.time = clock
    real_list = os.listdir

    def listdir(*a):
        r = real_list(*a)
        rng.shuffle(r)
        return r
    os.listdir = listdir
    random.seed(spec["seed"])
    np.random.seed(spec["seed"] & 0xffffffff)
    torch.manual_seed(spec["seed"])
    if spec["gc"]:
        gc.set_threshold(spec["gc"])
    base = Path(spec["dir"])
    out, acts = {}, {}
    shared = [{"compiler": "gcc", "compiler_flags": ["-O1", "-g"], "linker_flags": ["-lm"]}, {"compiler_flags": ["-O2"]}]
    for k in spec["order"]:
        c = spec["subs"][k]
        home = base / ("x" * rng.randrange(1, 30)) / f"m{k}"
        home.mkdir(parents=True)
        os.chdir(home if rng.random() < 0.5 or c["recipe"].get("fmt") == "quant" else "/")
        try:
            s = net.subject(c, home)
        except net.Skip as e:
            out[k] = {"skip": str(e)}
            continue
        X = s.inputs(c, c["n"]) if c["n"] >= 0 else None
        what = rng.choice(["plain", "infer", "twice", "failed", "other", "exists", "rand", "decoy", "decoy", "decoy"])
        if what == "infer" and c.get("more", {}).get("external_input"):
            what = "twice"
        acts[what] = acts.get(what, 0) + 1
        try:
            with net.quiet():
                def gen():
                    return net.generator(c, s.src, X, **{**s.kw, **c.get("more", {}), "nb_tests": abs(c["n"]), "makefile_properties": shared[c["mk"]] if c.get("mk") is not None else {}})
                if what == "other":
                    gen().generate_c_files(home / "other")
                if what == "decoy":
                    with replaced(s.src, rng), contextlib.suppress(Exception):
                        gen().generate_c_files(home / "decoy")
                g = gen()
                if what == "infer":
                    g.compute_inference(str(home))
                elif what == "twice":
                    g.generate_c_files(home / "first")
                elif what == "failed":
                    (home / "f").write_text("")
                    try:
                        g.generate_c_files(home / "f" / "x")
                    except OSError:
                        pass
                elif what == "exists":
                    (home / "e").mkdir()
                    (home / "e" / rng.choice(["main.c", "train_hook.c", "Makefile", "parameters.c", "parameters.dat"])).write_text("")
                    try:
                        g.generate_c_files(home / "e")
                    except OSError:
                        pass
                elif what == "rand":
                    np.random.random(17)
                    random.random()
                    torch.rand(3)
                dst = home / rng.choice(["o", "a/b/c"])
                g.generate_c_files(dst)
            out[k] = {p.name: hashlib.sha256(p.read_bytes()).hexdigest()[:16] for p in sorted(dst.iterdir())}
        except Exception as e:  # noqa: BLE001
            out[k] = {"refused": type(e).__name__}
        finally:
            os.chdir("/")
            if not spec.get("keep"):
                shutil.rmtree(home, ignore_errors=True)
        if rng.random() < 0.2:
            gc.collect()
    Path(sys.argv[2]).write_text(json.dumps({"out": out, "acts": acts, "clock": n[0]}))


main()
