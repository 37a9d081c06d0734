"""C02: inference calls share no mutable memory and stay inside their operands."""

from __future__ import annotations

from dst import csim_build as cs
from dst import net
from dst.checks import c01
from dst.common import Skip, digest

ID = "C02"
LEVEL = "exploration"
QUICK, THOROUGH = 760, 8000
RULE = ("a case is a random network and a script of concurrent batches and of calls on contexts fenced by guard zones; every "
        "memory access of the generated code goes to a happens-before race detector, to the confinement monitor and to "
        "a buffer-bound check; distinct by network and script")
REAL = c01.REAL
STUB = c01.STUB
ASSUMPTIONS = ["memory accesses are those gcc -O0/-O1 emits; library calls other than memcpy/memmove/memset are not observed",
               "an access past one buffer of a context is seen when it lands in the padding after the buffer or leaves the context"]
VIOL = {"RACE", "CONFINE", "BOUNDS", "INPUTWRITE", "SIGNAL", "DEADLOCK", "STEPS"}
prepare = c01.prepare


def case(rng, i, tier):
    c = net.sample_any(rng, onnx_p=0.6, bin_p=0.1, focus=None if i % 2 else i // 2)
    n = rng.choice([2, 3, 4, 5, 33])
    c["n"] = n
    c["page"] = 4096  # padding after each buffer
    c["cc"] = rng.choice(["-O0", "-O1", "-O1"])
    script = []
    for _ in range(rng.randint(2, 4)):
        script.append(cs.sample_sched(rng))
        q = rng.random()
        if q < 0.35:
            script.append("MAIN out.txt")
        elif q < 0.75:
            k = rng.choice([1, 2, 3, 5, 32, 33])
            script.append(f"BATCH {k} " + " ".join(str(rng.randrange(n)) for _ in range(k)))
        else:
            x = rng.choice([0, 1, 31, 101, 102])
            script.append(f"SCRIBBLE {x} {rng.choice([0, 1, 4])} {rng.randrange(1 << 20)}")
            script.append(f"CALL {x} {rng.randrange(n)} {rng.choice([0, 1, 2])}")
    c["script"] = script
    return c


def execute(c, d):
    try:
        r, rows, s, _ = c01.simulate(c, d, lay=True)
    except cs.BuildError:
        raise Skip("the generated code does not compile") from None  # a matter of C04
    viol = [v for v in r.viol if v[0] in VIOL]
    return {"viol": viol, "stats": {**cs.stats_of(r), "layers": {k: s.used.count(k) for k in set(s.used)}},
            "sig": digest([c["recipe"], c["script"]]), "traces": [r.trace],
            "nontrivial": r.stats.get("accesses", 0) > 0 and r.stats.get("maxteam", 0) >= 1,
            "sample": {"accesses": r.stats.get("accesses"), "calls": r.stats.get("calls")}}


shrink = c01.shrink
