"""C19: layers are generated in the versions asked for, and extensions change nothing else."""

from __future__ import annotations

import json
import os
import re
import types

from dst import baton, net
from dst.checks.c08 import hash_dir
from dst.common import Skip, digest

ID = "C19"
LEVEL = "exploration"
QUICK, THOROUGH = 1200, 14000
RULE = ("a case is one to three threads under a seeded scheduler, each with a history of registering variants of layers, factories and patterns, of "
        "registrations and selections that must be refused, and of generations that select variants by index or by type; every generation is compared with "
        "one in a process without extensions: the same files but for the marks of the selected variants, which are exactly those selected; non-trivial "
        "when a variant was selected; distinct by models, histories and schedule")
REAL = ["LayerFactory, versioning, PatternMatcher, CodeGenerator, as real Python threads"]
STUB = ["thread scheduling (one thread at a time, chosen by the seeded scheduler)", "registered variants: built-in implementations that leave a mark in the code"]
ASSUMPTIONS = ["threads register different names", "a variant is a built-in implementation with a mark in front of its code, so that the expected code is known",
               "patterns that are registered match nothing"]
TRACE_MEASURE = "hash of the sequence of (line count, thread switched to)"
CONV = ["6loops", "std_gemm_nn"]
SHARED = {"Clip", "Exponential", "Hyperb_tan", "Leakyrelu", "Logarithm", "Relu", "Sigmoid", "Silu"}  # types with one factory
MARK = re.compile(r"/\*DST (\w+) (\w+) (\d+)\*/\n?")


def case(rng, i, tier):
    k = rng.choice([1, 1, 2, 2, 3])
    pool = []
    for _ in range(rng.choice([1, 1, 2])):
        c = net.sample_subject(rng, onnx_p=0.75, opt_p=0.4, bin_p=0.2, hwc_p=0, n4=rng.choice([1, 2, 3, 5]), n2=rng.choice([0, 1, 2]))
        r = c["recipe"]
        if "fmt" not in r and len(r["input"]) == 3 and rng.random() < 0.4:
            r["ops"].insert(0, {"op": "conv", "src": [0], "kh": 1, "kw": 2, "s": 1, "p": [0] * 4, "f": 2, "d": 1, "act": None})
        c["n"], c["versions"] = rng.choice([1, 2]), None
        pool.append(c)
    threads = []
    for _ in range(k):
        h = []
        for _ in range(rng.randint(2, 6)):
            what = rng.choice(["reg", "reg", "reg", "gen", "gen", "gen", "dup", "unknown", "factory", "pattern", "list"])
            h.append([what, rng.randrange(len(pool)), rng.randrange(1 << 30)])
        threads.append([*h, ["reg", 0, rng.randrange(1 << 30)], ["gen", 0, rng.randrange(1 << 30)]])
    return {"pool": pool, "threads": threads, "sched": baton.sample(rng)}


def generate(p, s, X, versions, o, infer):
    with net.quiet():
        g = net.generator(p, s.src, X, **{**s.kw, "versions": versions})
        layers = [[l.idx, l.name] for l in g.layers]
        g.generate_c_files(o)
        if infer:
            g.compute_inference(str(o))
    return layers


def clean(p, versions, d, name, infer):
    """The same generation in a process of its own, without extensions."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = {"died": 1}
        try:
            (d / name).mkdir()
            s = net.subject(p, d / name)
            out = {"layers": generate(p, s, s.inputs(p, p["n"]), versions, d / name / "o", infer)}
            out["files"] = hash_dir(d / name / "o")
        except Skip as e:
            out = {"skip": str(e)}
        except Exception as e:  # noqa: BLE001  a matter of C04
            out = {"skip": f"not generated: {type(e).__name__}"}
        finally:
            with os.fdopen(w, "w") as f:
                json.dump(out, f)
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def plan(c, shapes, builtin):
    """Makes the seeds of the histories into concrete operations."""
    import random
    plans = []
    for t, h in enumerate(c["threads"]):
        own, todo = {}, []  # type of layer -> [(name of the variant, version it is made of)]
        for j, (what, k, seed) in enumerate(h):
            rng = random.Random(seed)
            types_ = sorted({n for _, n in shapes[k]})
            ty = "Conv2D" if "Conv2D" in types_ and rng.random() < 0.5 else rng.choice(types_)
            base = rng.choice(CONV) if ty == "Conv2D" else rng.choice([None, "default"])
            if what == "reg":
                name = f"{rng.choice(['v', 'a', 'zz', '6', 'std'])}_{t}_{j}"
                own.setdefault(ty, []).append((name, base))
                todo.append(["reg", k, ty, name, base])
            elif what == "dup":
                mine = [(a, n) for a in sorted(own) for n, _ in own[a]] + [(ty, rng.choice(builtin[ty]))]
                todo.append(["dup", k, *rng.choice(mine)])
            elif what == "unknown":
                idx, n = rng.choice(shapes[k])
                known = [v for v, _ in own.get(n, [])] + builtin[n]
                other = [v for x in sorted(own) if n not in SHARED or x not in SHARED for v, _ in own[x] if x != n]
                names = [f"none_{t}_{j}", "", "default", "6loops" if n != "Conv2D" else "5loops", *other]
                for v in known:
                    names += [v[:-1], v + " ", v.upper() + "X", v + "0", v[1:], v.replace("_", "-") + "-", " " + v]
                names += [v for v in ("channels_last", "std_gemm_nn", "none", "None", "Default") if v not in known]
                names = [x for x in names if x not in known]
                todo.append(["unknown", k, rng.choice([idx, n]), rng.choice(names)])
            elif what == "gen":
                versions, want = {}, {}
                for a in types_:
                    av = own.get(a, []) + ([(v, v) for v in CONV] if a == "Conv2D" else [("default", "default")])
                    if av and rng.random() < 0.6:
                        versions[a] = rng.choice(av)
                for i, n in shapes[k]:
                    av = own.get(n, []) + ([(v, v) for v in CONV] if n == "Conv2D" else [("default", "default")])
                    if av and rng.random() < 0.4:
                        versions[i] = rng.choice(av)
                plain, marks = {}, []
                for i, n in shapes[k]:
                    v = versions.get(i) or versions.get(n)
                    if v:
                        plain[i] = v[1]
                        if v[0] != v[1]:
                            marks.append([n, v[0], i])
                todo.append(["gen", k, [[a, b[0]] for a, b in versions.items()], [[a, b] for a, b in plain.items() if b is not None], marks, rng.random() < 0.3])
            else:
                todo.append([what, k, seed])
        plans.append(todo)
    return plans


def execute(c, d):
    from acetone_nnet import layer_factories, list_all_implementations, register_factory
    from acetone_nnet.pattern_matching.Pattern import Pattern
    from acetone_nnet.pattern_matching.PatternMatcher import pattern_matcher
    factories = layer_factories.implemented
    builtin = list_all_implementations()
    shapes = []
    for k, p in enumerate(c["pool"]):
        b = clean(p, None, d, f"b{k}", False)
        if "skip" in b:
            raise Skip(b["skip"])
        if "died" in b:
            raise RuntimeError("a generation died")
        shapes.append([x for x in b["layers"] if x[1] in factories])
    plans = plan(c, shapes, builtin)
    viol, subs = [], []
    want = {}
    for t, todo in enumerate(plans):
        for j, a in enumerate(todo):
            if a[0] == "gen":
                w = clean(c["pool"][a[1]], dict(a[3]), d, f"w{t}-{j}", a[5])
                if "skip" in w:
                    raise Skip(w["skip"])
                want[t, j] = w["files"]
    for k, p in enumerate(c["pool"]):
        (d / f"s{k}").mkdir()
        s = net.subject(p, d / f"s{k}")
        subs.append((s, s.inputs(p, p["n"])))
    st = {"registered": 0, "refused": 0, "generated": 0, "variants_selected": 0}

    class Never(Pattern):
        def is_pattern(self, layer):
            return False

        def apply_pattern(self, *a, **k):
            raise AssertionError

    def variant(ty, name, base):
        def build(old, version):
            layer = factories[ty](old, base)
            real, idx = layer.generate_inference_code_layer, layer.idx
            layer.generate_inference_code_layer = types.MethodType(lambda self: f"/*DST {ty} {version} {idx}*/\n" + real(), layer)
            return layer
        return build

    def bad(t, j, kind, text):
        viol.append([kind, f"thread {t} operation {j}: {text}"])

    def work(t):
        for j, a in enumerate(plans[t]):
            what, k = a[:2]
            if what == "reg":
                try:
                    factories[a[2]].register_implementation(a[3], variant(*a[2:5]))
                except Exception as e:  # noqa: BLE001
                    return bad(t, j, "REFUSED", f"variant {a[3]} of {a[2]} cannot be registered: {type(e).__name__}: {e}")
                st["registered"] += 1
                if a[3] not in factories[a[2]].list_implementations or a[3] not in list_all_implementations()[a[2]]:
                    return bad(t, j, "LOST", f"variant {a[3]} of {a[2]} is not listed after its registration")
            elif what == "dup":
                try:
                    factories[a[2]].register_implementation(a[3], variant(a[2], a[3] + '_again', CONV[0] if a[2] == 'Conv2D' else None))
                    return bad(t, j, "REPLACED", f"a second variant {a[3]} of {a[2]} is accepted")
                except KeyError:
                    st["refused"] += 1
            elif what == "unknown":
                try:
                    with net.quiet():
                        net.generator(c["pool"][k], subs[k][0].src, subs[k][1], **{**subs[k][0].kw, "versions": {a[2]: a[3]}}).generate_c_files(d / f"u{t}-{j}")
                    return bad(t, j, "ACCEPTED", f"the unknown variant {a[3]} is accepted")
                except KeyError:
                    st["refused"] += 1
            elif what == "factory":
                try:
                    register_factory(sorted(list(factories))[a[2] % 40], None)
                    return bad(t, j, "REPLACED", "a factory that exists is replaced")
                except KeyError:
                    st["refused"] += 1
                register_factory(f"New{t}x{j}", layer_factories.LayerFactory(f"New{t}x{j}"))
            elif what == "pattern":
                pattern_matcher.register_pattern(Never(f"never{t}{j}", "nothing", 0))
            elif what == "list":
                a = list_all_implementations()
                for v in a.values():
                    v.append("x")
                a.clear()
                for f in list(factories.values())[:3]:
                    f.list_implementations.clear()
                pattern_matcher.list_patterns().clear()
            else:
                o = d / f"g{t}-{j}"
                v = dict((x, y) for x, y in a[2])
                v0 = dict(v)
                try:
                    generate(c["pool"][k], *subs[k], v, o, a[5])
                except Exception as e:  # noqa: BLE001
                    return bad(t, j, "REFUSED", f"a generation with versions {v} fails: {type(e).__name__}: {str(e)[:150]}")
                if v != v0:
                    return bad(t, j, "MUTATED", "the versions given by the caller are modified")
                f = o / "inference.c"
                text = f.read_text()
                marks = sorted([x, y, int(z)] for x, y, z in MARK.findall(text))
                f.write_text(MARK.sub("", text))
                st["generated"] += 1
                st["variants_selected"] += len(marks)
                if marks != sorted(a[4]):
                    return bad(t, j, "SELECTION", f"versions {v} give the variants {marks}, not {sorted(a[4])}")
                got = hash_dir(o)
                if got != want[t, j]:
                    names = sorted(x for x in {*got, *want[t, j]} if got.get(x) != want[t, j].get(x))
                    return bad(t, j, "DIFFERS", f"{', '.join(names)[:120]} not as in a process without extensions")
        return None

    n = len(plans)
    trace = "alone"
    switches = 0
    if n == 1:
        work(0)
    else:
        s = baton.Sched(c["sched"]["seed"], c["sched"]["mode"], c["sched"]["param"], n)
        trace = s.run([lambda t=t: work(t) for t in range(n)])
        switches = s.switches
        for t in range(n):
            if s.errors[t] is not None:
                viol.append(["RAISED", f"thread {t}: {type(s.errors[t]).__name__}: {str(s.errors[t])[:200]}"])
    if not viol:  # everything is still there in the end
        for t, todo in enumerate(plans):
            for a in todo:
                if a[0] == "reg" and a[3] not in factories[a[2]].list_implementations:
                    viol.append(["LOST", f"variant {a[3]} of {a[2]}, registered by thread {t}, is gone"])
    return {"viol": viol[:4], "stats": {**st, "switches": switches, "threads": n}, "traces": [trace], "sig": digest([c["pool"], plans, trace]),
            "nontrivial": st["variants_selected"] > 0, "sample": {"operations": [len(x) for x in plans], "trace": trace}}


def shrink(c):
    th = c["threads"]
    if len(th) > 1:
        for i in range(len(th)):
            yield {**c, "threads": th[:i] + th[i + 1:]}
    for i, h in enumerate(th):
        if len(h) > 1:
            for j in range(len(h)):
                yield {**c, "threads": [*th[:i], h[:j] + h[j + 1:], *th[i + 1:]]}
    for i, p in enumerate(c["pool"]):
        for x in net.shrink_net(p):
            yield {**c, "pool": [*c["pool"][:i], x, *c["pool"][i + 1:]]}
