"""C01: predictions of a batch do not depend on the schedule."""

from __future__ import annotations

import os

import numpy as np

from dst import csim_build as cs
from dst import net
from dst.common import Skip, digest

ID = "C01"
LEVEL = "exploration"
QUICK, THOROUGH = 380, 8000
RULE = ("a case is a random network, the code really generated for it, and a script of whole-program runs and batch_loop "
        "calls under seeded schedules; non-trivial when a parallel region had at least two threads and the scheduler switched "
        "between them; distinct by network, script and schedule trace")
REAL = ["CodeGenerator and its importers/templates", "generated inference.c, main.c, train_hook.c, parameters, test data (gcc)"]
STUB = ["OpenMP runtime (seeded scheduler, one thread at a time)", "stdio files (in-memory disk)", "clock"]
ASSUMPTIONS = ["schedules are sampled, sequential consistency is assumed between switches (races are reported separately by C02)",
               "generated C is compiled by gcc -O1 with thread-sanitizer call-outs"]
VIOL = {"RACE", "DEADLOCK", "STEPS", "SIGNAL", "MISMATCH", "OUTPUT"}
SIZES = [1, 2, 3, 5, 17, 31, 32, 32, 33, 34, 63, 64, 64, 65, 70]


def prepare(root, tier, seed):
    cs.prepare(root)


def case(rng, i, tier):
    c = net.sample_any(rng, onnx_p=0.7, focus=None if i % 3 else i // 3, n4=rng.choice([1, 2, 3, 5]), n2=rng.choice([0, 0, 1, 2]))
    n = rng.choice(SIZES)
    c["n"] = n
    script = []
    for _ in range(rng.randint(3, 6)):
        script.append(cs.sample_sched(rng))
        if rng.random() < 0.5:
            script.append(f"CLOCK {rng.choice([0, 1, 2, 3])}")
            script.append("MAIN out.txt")
        else:
            k = rng.choice([0, *SIZES])
            script.append(f"BATCH {k} " + " ".join(str(rng.randrange(n)) for _ in range(k)))
    c["script"] = script
    return c


def simulate(c, d, lay=False):
    """Generate, build and run; returns (result, rows computed alone, subject, X)."""
    s = net.subject(c, d)
    X = s.inputs(c, c["n"])
    here = os.getcwd()
    os.chdir(d)  # where a target's configuration is looked for
    try:
        with net.quiet():
            g = net.generator(c, s.src, X, **{**s.kw, "makefile_properties": dict(cs.SIM_PROPS)})
            g.generate_c_files(d / "gen")
    except Exception as e:  # noqa: BLE001  a matter of C04
        raise Skip(f"not generated: {type(e).__name__}") from None
    finally:
        os.chdir(here)
    exe = cs.build(d / "gen", c.get("cc", "-O1"))
    dt = s.dtype
    solo = []
    for t in range(c["n"]):
        solo += ["SCRIBBLE 100 0 0", f"CALL 100 {t} 0"]
    r = cs.run(exe, [*(cs.layout(d / "gen") if lay else []), "SCHED run 1 0 1", *solo, *c["script"]], dt, d / "gen")
    rows = [o.pred for o in r.ops if o.cmd == "CALL"][:c["n"]]
    return r, rows, s, X


def rows_of_main(o, dt):
    read = int if np.dtype(dt).kind == "i" else float.fromhex
    return [np.array([read(t) for t in line.split()], dtype=dt) for line in o.file.decode().splitlines()]


def compare(c, r, rows, dt):
    viol = []
    ops = [o for o in r.ops if o.cmd in ("MAIN", "BATCH", "CALL", "SCRIBBLE")][2 * c["n"]:]
    lines = [s for s in c["script"] if s.split()[0] in ("MAIN", "BATCH", "CALL", "SCRIBBLE")]
    for o, line in zip(ops, lines):
        w = line.split()
        if w[0] == "MAIN":
            if o.rc is None:
                continue
            if o.rc != 0 or o.file is None:
                viol.append(["OUTPUT", f"the program failed ({o.rc}) although nothing did"])
                continue
            try:
                got = rows_of_main(o, dt)
            except ValueError as e:
                viol.append(["OUTPUT", f"output is not a table of numbers: {e}"])
                continue
            if len(got) != c["n"]:
                viol.append(["OUTPUT", f"{len(got)} result rows for {c['n']} tests"])
                continue
            want = list(range(c["n"]))
        elif w[0] == "BATCH":
            if o.pred is None:
                continue
            want = [int(x) for x in w[2:]]
            got = o.pred.reshape(len(want), -1) if want else []
        elif w[0] == "CALL":
            if o.pred is None:
                continue
            want, got = [int(w[2])], [o.pred]
            if o.rc != 0:
                viol.append(["OUTPUT", f"inference returned {o.rc}"])
        else:
            continue
        for k, (s, g) in enumerate(zip(want, got)):
            if s < len(rows) and g.tobytes() != rows[s].tobytes():
                viol.append(["MISMATCH", f"{w[0]} row {k} (test {s}) differs from the result computed alone"])
                break
    return viol


def execute(c, d):
    try:
        r, rows, s, _ = simulate(c, d)
    except cs.BuildError:
        raise Skip("the generated code does not compile") from None  # a matter of C04
    viol = [v for v in r.viol if v[0] in VIOL] + compare(c, r, rows, s.dtype)
    return {"viol": viol, "stats": {**cs.stats_of(r), "layers": {k: s.used.count(k) for k in set(s.used)}},
            "sig": digest([c["recipe"], c["script"], r.trace]), "traces": [r.trace],
            "nontrivial": r.stats.get("maxteam", 0) >= 2 and r.stats.get("switches", 0) > 2,
            "sample": {"trace": r.trace, "switches": r.stats.get("switches"), "accesses": r.stats.get("accesses")}}


def shrink(c):
    ops, cur = [], []
    for line in c["script"]:
        cur.append(line)
        if line.split()[0] in ("MAIN", "BATCH", "CALL", "SCRIBBLE"):
            ops.append(cur)
            cur = []
    for i in range(len(ops)):
        if len(ops) > 1:
            yield {**c, "script": sum(ops[:i] + ops[i + 1:], [])}
    for i, o in enumerate(ops):
        w = o[-1].split()
        if w[0] == "BATCH" and int(w[1]) > 2:
            k = int(w[1]) // 2
            yield {**c, "script": sum(ops[:i], []) + o[:-1] + [" ".join(["BATCH", str(k), *w[2:2 + k]])] + sum(ops[i + 1:], [])}
    used = {int(x) for o in ops for x in o[-1].split()[2:] if o[-1].startswith("BATCH")}
    if c["n"] > 2 and not any(o[-1].split()[0] == "CALL" for o in ops):
        k = max(1, c["n"] // 2)
        if not used or max(used) < k:
            yield {**c, "n": k}
        yield {**c, "n": k, "script": [" ".join([*l.split()[:2], *[str(int(x) % k) for x in l.split()[2:]]]) if l.startswith("BATCH") else l
                                       for l in c["script"]]}
    yield from net.shrink_net(c)
