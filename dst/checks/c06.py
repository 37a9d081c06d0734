"""C06: options that only change the form of the program do not change its results."""

from __future__ import annotations

import subprocess

import numpy as np

from dst import csim_build as cs
from dst import net
from dst.checks import c01, c04
from dst.common import Skip, digest

ID = "C06"
LEVEL = "exploration"
QUICK, THOROUGH = 260, 6000
RULE = ("a case is a random model generated several times under different options; every program runs whole under the simulator with "
        "its own seeded schedule (one is also built with the default compiler settings and run outside the simulator); non-trivial when "
        "at least two programs ran; distinct by model recipe and options")
REAL = c01.REAL
STUB = c01.STUB
ASSUMPTIONS = ["options of form must not change a bit; code versions, layouts and the optimiser may change rounding (tolerance as in C04)",
               "to_hex=False prints the output with six digits, compared accordingly"]
prepare = c01.prepare
FORM = ["bin", "page", "name", "verbose", "dec", "path", "hexpath", "cc", "native", "again", "hw"]
IMPL = ["6loops", "std_gemm_nn", "mix", "opt", "hwc"]


def case(rng, i, tier):
    c = net.sample_subject(rng, focus=None if i % 2 else i // 2, bin_p=0.2, n4=rng.choice([1, 2, 3, 4]), n2=rng.choice([0, 1, 2]))
    c["n"] = rng.choice([1, 2, 3, 34])
    c["opts"] = [{"k": rng.choice(FORM) if rng.random() < 0.65 else rng.choice(IMPL), "q": rng.randrange(1 << 16),
                  "sched": cs.sample_sched(rng)} for _ in range(rng.randint(2, 4))]
    c["sched"] = cs.sample_sched(rng)
    return c


def variant(c, o, X, d, convs):
    """(keyword arguments of the generator, dataset, compiler option, form only?)"""
    k, q = o["k"], o["q"]
    kw, cc, exact = {}, "-O1", True
    if k == "bin":
        kw["bin_dataset"] = not c.get("bin", False)
    elif k == "page":
        kw.update(target_page_size=[16, 64, 4096, 8192, 65536][q % 5], bin_dataset=bool(q & 64) or c.get("bin", False))
    elif k == "name":
        kw["function_name"] = ["net", "lenet5_v2", "x"][q % 3]
    elif k == "verbose":
        kw["verbose"] = True
    elif k == "dec":
        kw["to_hex"] = False
    elif k in ("path", "hexpath"):
        hexa = k == "hexpath"
        kw["to_hex"] = hexa
        f = d / f"data_{k}.txt"
        q2 = (lambda v: f'"{float(v).hex()}"') if hexa else (lambda v: repr(float(v)))
        f.write_text("".join("[" + ", ".join(q2(v) for v in x.ravel()) + "]\n" for x in X))
        X = f if q & 1 else str(f)
    elif k == "cc":
        cc = ["-O0", "-O2", "-O3"][q % 3]
    elif k == "hw":
        kw["versions"] = c.get("versions")
    elif k in ("6loops", "std_gemm_nn"):
        exact = c.get("gdf") is not None
        if not exact:
            kw["versions"] = {"Conv2D": k}
    elif k == "mix":
        exact = c.get("gdf") is not None
        if not exact:
            kw["versions"] = {"Conv2D": ["6loops", "std_gemm_nn"][q & 1], **{j: ["6loops", "std_gemm_nn"][(q >> (i % 15)) & 1] for i, j in enumerate(convs)}}
    elif k == "opt":
        kw["optimization"] = not c["opt"]
        exact = False
    elif k == "hwc":
        exact = c.get("gdf") is None
        if not exact:
            kw.update(versions=None, gen_data_format="channels_first")
    return kw, X, cc, exact


def run_native(d, name):
    r = subprocess.run(["make", "-s", "-C", str(d), name], capture_output=True, text=True, timeout=200, check=False)
    if r.returncode:
        raise cs.BuildError((r.stderr or r.stdout)[-400:])
    p = subprocess.run([f"./{name}", "out.txt"], cwd=str(d), capture_output=True, timeout=100, check=False)
    f = d / "out.txt"
    return p.returncode, f.read_bytes() if f.exists() else None


def one(c, s, X, o, d, dd, convs):
    kw, Xv, cc, exact = variant(c, o, X, dd, convs) if o["k"] != "base" else ({}, X, "-O1", True)
    name = kw.get("function_name", "inference")
    native = o["k"] == "native"
    if not native:
        kw["makefile_properties"] = dict(cs.SIM_PROPS)
    c2 = dict(c)
    with net.quiet():
        g = net.generator(c2, s.src, X, **{**s.kw, **kw, "test_dataset": Xv, "nb_tests": len(X)})
        g.generate_c_files(d)
    if o["k"] == "base":
        convs += [x.idx for x in g.layers if x.name == "Conv2D"]
    if native:
        rc, data = run_native(d, name)
        return rc, data, exact, None, []
    exe = cs.build(d, cc, name=name)
    r = cs.run(exe, [o["sched"], "MAIN out.txt"], s.dtype, d)
    op = r.ops[-1]
    return op.rc, op.file, exact, r, [v for v in r.viol if v[0] in c01.VIOL - {"RACE"}]


def rows_of(data, dt):
    return [[float.fromhex(t) if "0x" in t else float(t) for t in line.split()] for line in data.decode().splitlines()]


def execute(c, d):
    s = net.subject(c, d)
    X = s.inputs(c, c["n"])
    ref = c04.finite(s, X)
    tol = s.ref.tolerance(X, ref)
    viol, stats, traces, ran = [], {"variants": {}}, [], 0
    base, convs = None, []
    for k, o in enumerate([{"k": "base", "q": 0, "sched": c["sched"]}, *c["opts"]]):
        try:
            rc, data, exact, r, v = one(c, s, X, o, d / f"g{k}", d, convs)
        except cs.BuildError as e:
            if "is empty" in str(e):
                continue
            if base is None:
                raise Skip("the code does not compile") from None
            viol.append(["BUILD", f"only with {o['k']}({o['q']}): {str(e)[-300:]}"])
            break
        except Exception as e:  # noqa: BLE001
            if base is None:
                raise Skip(f"not generated: {type(e).__name__}") from None
            viol.append(["REFUSED", f"only with {o['k']}({o['q']}): {type(e).__name__}: {str(e)[:200]}"])
            break
        viol += v
        if viol:
            break
        if r is not None:
            traces.append(r.trace)
            for kk, vv in cs.stats_of(r).items():
                stats[kk] = max(stats.get(kk, 0), vv) if kk.startswith("max_") else stats.get(kk, 0) + vv
        stats["variants"][o["k"]] = stats["variants"].get(o["k"], 0) + 1
        ran += 1
        try:
            got = rows_of(data, s.dtype) if rc == 0 and data is not None else None
        except ValueError:
            got = None
        if got is None or len(got) != len(X) or len({len(x) for x in got}) > 1:
            if base is None:
                raise Skip("the program does not write a table")  # C04 reports it
            viol.append(["OUTPUT", f"with {o['k']}({o['q']}): exit {rc}, no table of results"])
            break
        got = np.array(got)
        if base is None:
            base = got
            continue
        if got.shape != base.shape:
            viol.append(["DIFFERS", f"{o['k']}({o['q']}): {got.shape} values for {base.shape}"])
            break
        dec = o["k"] in ("dec", "path")
        e = np.abs(got - base)
        lim = (2e-5 * np.abs(base) + 1e-30) if dec else 0.0
        if not exact:
            lim = lim + 2 * tol
        bad = ~((e <= lim) | (np.isnan(got) & np.isnan(base)) | (got == base))
        if bad.any():
            j = np.unravel_index(np.argmax(bad), bad.shape)
            viol.append(["DIFFERS", f"{o['k']}({o['q']}): test {j[0]} output {j[1]} is {got[j]!r}, otherwise {base[j]!r}"])
            break
    return {"viol": viol, "stats": stats, "traces": traces, "nontrivial": ran > 1,
            "sig": digest([c["recipe"], c.get("versions"), c["opts"], c["opt"]]), "sample": {"programs": ran}}


def shrink(c):
    for i in range(len(c["opts"])):
        if len(c["opts"]) > 1:
            yield {**c, "opts": c["opts"][:i] + c["opts"][i + 1:]}
    if c["n"] > 1:
        yield {**c, "n": c["n"] // 2}
    yield from net.shrink_net(c)
