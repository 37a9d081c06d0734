"""C03: an inference result depends on its input only, whatever happened before."""

from __future__ import annotations

from dst import csim_build as cs
from dst import net
from dst.checks import c01
from dst.common import Skip, digest

ID = "C03"
LEVEL = "exploration"
QUICK, THOROUGH = 760, 8000
RULE = ("a case is a random network and a history of up to 30 operations: calls on reused or private contexts, corruption of "
        "contexts left behind (random bits, NaN, infinities, all ones, plausible values), batches, whole-program runs, weight "
        "saves, in any order; every call's result is compared bit for bit with the same call on a fresh zeroed context; "
        "distinct by network and history")
REAL = c01.REAL
STUB = c01.STUB
ASSUMPTIONS = ["histories are sampled"]
VIOL = {"SIGNAL", "MISMATCH", "OUTPUT", "INPUTWRITE", "STEPS", "DEADLOCK"}
prepare = c01.prepare


def case(rng, i, tier):
    c = net.sample_any(rng, onnx_p=0.6, bin_p=0.1, f64_p=0.12, focus=None if i % 2 else i // 2)
    n = rng.choice([1, 2, 3, 6])
    c["n"] = n
    script = [f"SCHED run {rng.randrange(1 << 30)} 1 {rng.choice([1, 0, 4])}"]
    ctxs = rng.sample([0, 1, 7, 31, 101, 102, 103], rng.randint(1, 3))
    for _ in range(rng.randint(6, 30)):
        q = rng.random()
        x = rng.choice(ctxs)
        if q < 0.3:
            script.append(f"SCRIBBLE {rng.choice([x, x, -1])} {rng.choice([0, 1, 1, 2, 3, 4])} {rng.randrange(1 << 20)}")
        elif q < 0.85:
            script.append(f"CALL {x} {rng.randrange(n)} {rng.choice([0, 1, 2, 4])}")
        elif q < 0.93:
            k = rng.choice([0, 1, 2, 5, 33])
            script.append(f"BATCH {k} " + " ".join(str(rng.randrange(n)) for _ in range(k)))
        else:
            script.append("MAIN out.txt")
    c["script"] = script
    return c


def execute(c, d):
    try:
        r, rows, s, _ = c01.simulate(c, d)
    except cs.BuildError:
        raise Skip("the generated code does not compile") from None  # a matter of C04
    viol = [v for v in r.viol if v[0] in VIOL] + c01.compare(c, r, rows, s.dtype)
    h = [s.split()[0] for s in c["script"]]
    return {"viol": viol, "stats": {**cs.stats_of(r), "history_ops": {k: h.count(k) for k in set(h)},
                                    "layers": {k: s.used.count(k) for k in set(s.used)}},
            "sig": digest([c["recipe"], c["script"]]),
            "nontrivial": h.count("CALL") >= 2,
            "sample": {"ops": len(h), "calls": r.stats.get("calls")}}


shrink = c01.shrink
