"""C10: generations that race for one directory never mix."""

from __future__ import annotations

from dst import baton, net
from dst.checks.c09 import content
from dst.common import Skip, digest

ID = "C10"
LEVEL = "exploration"
QUICK, THOROUGH = 600, 12000
RULE = ("a case is two to four threads that generate code of different or equal models into one or two shared directories, under a seeded "
        "scheduler that can switch before any line of acetone_nnet; non-trivial when two threads interleaved inside generation; distinct by "
        "models and schedule")
REAL = ["CodeGenerator, real files"]
STUB = ["thread scheduling (one thread at a time, chosen by the seeded scheduler)"]
ASSUMPTIONS = ["switches happen between lines of acetone_nnet; files of a generation are those it writes alone in an empty directory"]
TRACE_MEASURE = "hash of the sequence of (line count, thread switched to)"


def case(rng, i, tier):
    k = rng.choice([2, 2, 2, 3, 4])
    pool = []
    for _ in range(rng.choice([1, 2, 2, k])):
        c = net.sample_subject(rng, onnx_p=0.75, bin_p=0.35, n4=rng.choice([1, 2, 3]), n2=rng.choice([0, 1]))
        c["n"] = rng.choice([1, 2])
        pool.append(c)
    return {"pool": pool, "threads": [{"sub": rng.randrange(len(pool)), "dirs": [rng.randrange(2) if rng.random() < 0.3 else 0
                                       for _ in range(rng.choice([1, 1, 2]))]} for _ in range(k)],
            "made": rng.random() < 0.5, "nested": rng.random() < 0.3, "debris": rng.random() < 0.1, "sched": baton.sample(rng)}


def execute(c, d):
    gens, want = [], []
    for t, th in enumerate(c["threads"]):
        p = c["pool"][th["sub"]]
        (d / f"m{t}").mkdir()
        s = net.subject(p, d / f"m{t}")
        try:
            with net.quiet():
                gens.append(net.generator(p, s.src, s.inputs(p, p["n"]), **s.kw))
                h = net.generator(p, s.src, s.inputs(p, p["n"]), **s.kw)
                h.generate_c_files(d / f"ref{t}")
        except Exception as e:  # noqa: BLE001
            raise Skip(f"not generated: {type(e).__name__}") from None
        want.append(content(d / f"ref{t}"))
    dirs = [d / ("x/y/out0" if c["nested"] else "out0"), d / ("x/z/out1" if c["nested"] else "out1")]
    if c["made"]:
        for o in dirs:
            o.mkdir(parents=True)
    old = {}
    if c["debris"]:
        dirs[0].mkdir(parents=True, exist_ok=True)
        n = sorted(want[0])[c["sched"]["seed"] % len(want[0])]
        (dirs[0] / n).write_bytes(b"left over")
        old[n] = b"left over"
    log = []

    def work(t):
        for k in c["threads"][t]["dirs"]:
            try:
                gens[t].generate_c_files(dirs[k])
                log.append((t, k, None))
            except OSError as e:
                log.append((t, k, type(e).__name__))
    s = baton.Sched(c["sched"]["seed"], c["sched"]["mode"], c["sched"]["param"], len(gens))
    trace = s.run([lambda t=t: work(t) for t in range(len(gens))])
    viol, ok = [], 0
    for t, e in enumerate(s.errors):
        if e is not None:
            viol.append(["RAISED", f"thread {t}: {type(e).__name__}: {str(e)[:200]}"])
    for k, o in enumerate(dirs):
        tries = [x for x in log if x[1] == k]
        won = [x[0] for x in tries if x[2] is None]
        ok += len(won)
        now = content(o)
        if len(won) > 1:
            viol.append(["MIXED", f"{len(won)} generations into one directory report success"])
        if won:
            w = want[won[0]]
            bad = sorted(n for n in w if now.get(n) != w[n])
            if bad:
                viol.append(["MIXED", f"success is reported, but {', '.join(bad)[:150]} are not the files of that generation"])
            extra = sorted(n for n in now if n not in w and n not in old)
            if extra:
                viol.append(["MIXED", f"success is reported, but the directory also holds {', '.join(extra)[:150]} of another generation"])
        if old and k == 0:
            if any(now.get(n) != b for n, b in old.items()):
                viol.append(["OVERWRITTEN", f"{list(old)} was there before and has changed"])
            for t in won:
                if any(n in want[t] for n in old):
                    viol.append(["MIXED", f"success is reported although {list(old)} was there before"])
        if not won and tries and not (old and k == 0):
            if len(tries) == 1:
                viol.append(["REFUSED", f"the only generation into a directory fails ({tries[0][2]})"])
    return {"viol": viol[:4], "stats": {"switches": s.switches, "lines": s.steps, "threads": len(gens), "attempts": len(log), "successes": ok,
                                        "no_winner": int(ok == 0), "modes": {c["sched"]["mode"]: 1}},
            "sig": digest([c, trace]), "traces": [trace], "nontrivial": s.switches > 2,
            "sample": {"trace": trace, "switches": s.switches, "outcomes": [[*x] for x in log]}}


def shrink(c):
    th = c["threads"]
    if len(th) > 2:
        for i in range(len(th)):
            yield {**c, "threads": th[:i] + th[i + 1:]}
    for i, t in enumerate(th):
        if len(t["dirs"]) > 1:
            for k in range(len(t["dirs"])):
                yield {**c, "threads": [*th[:i], {**t, "dirs": t["dirs"][:k] + t["dirs"][k + 1:]}, *th[i + 1:]]}
    for k in ("made", "nested", "debris"):
        if c[k]:
            yield {**c, k: False}
    for i, p in enumerate(c["pool"]):
        for x in net.shrink_net(p):
            yield {**c, "pool": [*c["pool"][:i], x, *c["pool"][i + 1:]]}
