"""python -m dst PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""

import argparse
import os
import sys

ENV = {
    "TF_CPP_MIN_LOG_LEVEL": "3", "CUDA_VISIBLE_DEVICES": "", "TF_ENABLE_ONEDNN_OPTS": "0",
    "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8", "KERAS_BACKEND": os.environ.get("KERAS_BACKEND", ""),
}

PRELOADED = {"C09", "C13", "C14", "C15"}


def main():
    if os.environ.get("DST_ENV") != "1":
        env = dict(os.environ, DST_ENV="1", **{k: v for k, v in ENV.items() if v != "" or k == "CUDA_VISIBLE_DEVICES"})
        env.pop("KERAS_BACKEND", None) if not env.get("KERAS_BACKEND") else None
        for k in ("MAKEFLAGS", "MFLAGS", "CFLAGS", "LDFLAGS", "CC"):
            env.pop(k, None)
        if len(sys.argv) > 1 and PRELOADED & set(sys.argv[1].upper().split(",")):
            from dst.iofault import compile_preload
            env["LD_PRELOAD"] = compile_preload()
        os.execve(sys.executable, [sys.executable, "-m", "dst", *sys.argv[1:]], env)
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    import importlib
    if PRELOADED & set(a.property.upper().split(",")):
        from dst.iofault import loaded
        loaded()
    from dst import common
    if "," in a.property:  # sweeps during development: up to the first check that does not pass
        for p in a.property.split(","):
            code = common.run_check(importlib.import_module(f"dst.checks.{p.lower()}"), a.tier, a.seed)
            if code:
                sys.exit(code)
        return
    mod = importlib.import_module(f"dst.checks.{a.property.lower()}")
    print(f"VERIF_SEED={a.seed} tier={a.tier} property={a.property}", flush=True)
    sys.exit(common.replay(mod, a.replay) if a.replay else common.run_check(mod, a.tier, a.seed))


main()
