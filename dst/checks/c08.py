"""C08: generators used from concurrent threads do not affect each other."""

from __future__ import annotations

import hashlib
import json
import os

from dst import baton, net
from dst.common import Skip, digest

ID = "C08"
LEVEL = "exploration"
QUICK, THOROUGH = 560, 12000
RULE = ("a case is two to four threads, each building its own generators (of model objects, option dictionaries and datasets they may "
        "share), generating code and evaluating models, under a seeded scheduler that can switch before any line of acetone_nnet; everything "
        "produced must equal what the same thread produces alone in a process of its own; non-trivial when two threads interleaved; "
        "distinct by threads and schedule")
REAL = ["CodeGenerator: importers, optimisation, code generation, evaluation, as real Python threads"]
STUB = ["thread scheduling (one thread at a time, chosen by the seeded scheduler)"]
ASSUMPTIONS = ["switches happen between lines of acetone_nnet, not inside a line or inside libraries",
               "threads use their own generators and directories; model objects, datasets and option dictionaries may be shared"]
TRACE_MEASURE = "hash of the sequence of (line count, thread switched to)"
ACTS = ["gen", "infer", "gen", "infer", "fail"]


def case(rng, i, tier):
    k = rng.choice([2, 2, 2, 3, 4])
    pool = []
    for j in range(rng.choice([1, 1, 2, k])):
        c = net.sample_quantized(rng) if not j and rng.random() < 0.15 else net.sample_subject(rng, onnx_p=0.7, opt_p=0.6, bin_p=0.2, n4=rng.choice([1, 2, 3, 5]), n2=rng.choice([0, 1, 2]))
        c["n"] = rng.choice([1, 2])
        pool.append(c)
    threads = []
    siblings = rng.random() < 0.35  # models of the same layers, with other sizes and weights, generated at the same time
    if siblings and "fmt" not in pool[0]["recipe"]:
        r = pool[0]["recipe"]
        for j in range(1, k):
            x = list(r["input"])
            for _ in range(rng.choice([1, 1, 2])):
                x[rng.randrange(len(x))] += rng.choice([1, 2, 3])
            new = {**pool[0], "recipe": {**r, "input": x, "wseed": rng.randrange(1 << 30)}, "or": 0}
            pool[j:j + 1] = [new]
    else:
        siblings = False
    rivals = not siblings and rng.random() < 0.4  # all threads at the same model, each with versions of its own
    if rivals:
        pool = pool[:1]
        r = pool[0]["recipe"]
        if "fmt" not in r and not pool[0].get("gdf") and len(r["input"]) == 3 and not any(o["op"] == "conv" for o in r["ops"]) and rng.random() < 0.7:
            r["ops"].insert(0, {"op": "conv", "src": [0], "kh": 1, "kw": 2, "s": 1, "p": [0] * 4, "f": 2, "d": 1, "act": None})
    for t in range(k):
        todo = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            todo.append({"sub": t if siblings else rng.randrange(len(pool)), "opt": rng.random() < 0.6, "bin": rng.random() < 0.2,
                         **({"versions": rng.choice([{"Conv2D": "6loops"}, {"Conv2D": "std_gemm_nn"}])} if rng.random() < (0.8 if rivals else 0.3) else {}),
                         "more": net.sample_options(rng), "acts": [rng.choice(ACTS) for _ in range(rng.choice([1, 2, 3]))]})
        threads.append(todo)
    return {"pool": pool, "threads": threads, "sched": baton.sample(rng)}


def hash_dir(d):
    return {p.name: hashlib.sha256(p.read_bytes()).hexdigest()[:16] for p in sorted(d.iterdir())}


def work(c, subs, t, d, out):
    """What thread t does; appends one record per action to out."""
    for j, job in enumerate(c["threads"][t]):
        s, X, opts = subs[job["sub"]]
        own = {"versions": dict(job["versions"])} if job.get("versions") and not c["pool"][job["sub"]].get("gdf") else {}
        sub = {**c["pool"][job["sub"]], "opt": job["opt"], "bin": job["bin"]}
        try:
            g = net.generator(sub, s.src, X, **{**s.kw, **job.get("more", {}), **opts, **own})
        except Exception as e:  # noqa: BLE001
            out.append({"refused": type(e).__name__})
            continue
        for k, a in enumerate(job["acts"]):
            o = d / f"t{t}-{j}-{k}"
            try:
                if a == "infer":
                    o.mkdir()
                    g.compute_inference(str(o))
                elif a == "gen":
                    g.generate_c_files(o)
                else:
                    o.mkdir()
                    (o / "Makefile").write_text("mine")
                    try:
                        g.generate_c_files(o)
                    except FileExistsError:
                        pass
                out.append({"act": a, **hash_dir(o)})
            except Exception as e:  # noqa: BLE001
                out.append({"act": a, "raised": type(e).__name__})


def load(c, d):
    subs = []
    if any(p["recipe"].get("fmt") == "quant" for p in c["pool"]):
        os.chdir(d)  # where a target's configuration is looked for
    for k, p in enumerate(c["pool"]):
        try:
            s = net.subject(p, d, prefix=f"m{k}")
        except Skip:
            if "or" not in p:
                raise
            s = net.subject(c["pool"][p["or"]], d, prefix=f"m{k}")  # no such model with that size
        opts = {"makefile_properties": {"compiler": "gcc", "compiler_flags": ["-O2"], "linker_flags": ["-lm"]},
                "versions": dict(p["versions"]) if p.get("versions") else {}}
        subs.append((s, s.inputs(p, p["n"]), opts))
    return subs


def frozen(subs):
    return [[hashlib.sha256(X.tobytes()).hexdigest(), json.dumps(o, sort_keys=True),
             hashlib.sha256(s.src.SerializeToString()).hexdigest() if hasattr(s.src, "SerializeToString") else ""] for s, X, o in subs]


def alone(c, t, d):
    """Thread t alone, in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = []
            (d / f"solo{t}").mkdir()
            try:
                work(c, load(c, d / f"solo{t}"), t, d / f"solo{t}", out)
            except Skip as e:
                out = str(e)
            with os.fdopen(w, "w") as f:
                json.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def execute(c, d):
    here = os.getcwd()
    try:
        return simulate(c, d)
    finally:
        os.chdir(here)


def simulate(c, d):
    k = len(c["threads"])
    want = [alone(c, t, d) for t in range(k)]
    for w in want:
        if isinstance(w, str):
            raise Skip(w)
    if not any("act" in x and "raised" not in x for w in want for x in w):
        raise Skip("no model is generated")
    subs = load(c, d)
    before = frozen(subs)
    got = [[] for _ in range(k)]
    (d / "all").mkdir()
    s = baton.Sched(c["sched"]["seed"], c["sched"]["mode"], c["sched"]["param"], k)
    trace = s.run([lambda t=t: work(c, subs, t, d / "all", got[t]) for t in range(k)])
    viol = []
    for t in range(k):
        if s.errors[t] is not None:
            viol.append(["RAISED", f"thread {t}: {type(s.errors[t]).__name__}: {str(s.errors[t])[:200]}"])
        for j, (a, b) in enumerate(zip(want[t], got[t])):
            if a != b:
                names = sorted(x for x in {*a, *b} if a.get(x) != b.get(x))
                viol.append(["DIFFERS", f"thread {t} action {j} ({a.get('act')}): {', '.join(names)[:150]} not as when the thread runs alone"
                             + (f" ({b.get('raised') or b.get('refused')})" if b.get("raised") or b.get("refused") else "")])
                break
        if len(want[t]) != len(got[t]) and s.errors[t] is None:
            viol.append(["DIFFERS", f"thread {t}: {len(got[t])} actions for {len(want[t])}"])
    after = frozen(subs)
    if before != after:
        viol.append(["MUTATED", "an object given to several generators was modified"])
    return {"viol": viol[:4], "stats": {"switches": s.switches, "lines": s.steps, "threads": k, "actions": sum(map(len, want)),
                                        "modes": {c["sched"]["mode"]: 1}},
            "sig": digest([c, trace]), "traces": [trace], "nontrivial": s.switches > 2, "sample": {"trace": trace, "switches": s.switches, "lines": s.steps}}


def shrink(c):
    th = c["threads"]
    if len(th) > 2:
        for i in range(len(th)):
            yield {**c, "threads": th[:i] + th[i + 1:]}
    for i, todo in enumerate(th):
        if len(todo) > 1:
            for j in range(len(todo)):
                yield {**c, "threads": [*th[:i], todo[:j] + todo[j + 1:], *th[i + 1:]]}
        for j, job in enumerate(todo):
            if len(job["acts"]) > 1:
                for k in range(len(job["acts"])):
                    yield {**c, "threads": [*th[:i], [*todo[:j], {**job, "acts": job["acts"][:k] + job["acts"][k + 1:]}, *todo[j + 1:]], *th[i + 1:]]}
    for i, p in enumerate(c["pool"]):
        for x in net.shrink_net(p):
            yield {**c, "pool": [*c["pool"][:i], x, *c["pool"][i + 1:]]}
    s = c["sched"]
    if s["mode"] != "few":
        yield {**c, "sched": {**s, "mode": "few", "param": 5000}}
