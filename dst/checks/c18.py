"""C18: an interruption at any point leaves nothing behind that changes what is done later."""

from __future__ import annotations

import hashlib
import json
import os
import sys

from dst import net
from dst.baton import ROOT
from dst.checks.c08 import hash_dir
from dst.common import Skip, digest

ID = "C18"
LEVEL = "exploration"
QUICK, THOROUGH = 1000, 20000
RULE = ("a case is one or two models and a history of loading them, generating code and evaluating, with an exception (an interrupt from the "
        "keyboard, memory that runs out) raised at a seeded line of acetone_nnet in some of the operations; every operation that is not interrupted must "
        "give what it gives in a process where nothing else was done; non-trivial when an operation was interrupted; distinct by models and history")
REAL = ["CodeGenerator: importers, optimisation, versioning, code generation, evaluation"]
STUB = ["none: the exception is raised in the real code, in front of a line"]
ASSUMPTIONS = ["interruptions fall between lines of acetone_nnet, not inside a line or inside libraries", "imports are not interrupted"]
TRACE_MEASURE = "hash of the functions and lines at which the exceptions were raised"
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RecursionError": RecursionError}


class Lines:
    """Counts the lines of each function of acetone_nnet; may raise in front of one of them."""

    def __init__(self, key=None, at=0, exc=None):
        self.key, self.at, self.exc = key, at, exc
        self.n, self.where, self.keys = {}, None, {}

    def name(self, code):
        k = self.keys.get(code)
        if k is None:
            k = self.keys[code] = f"{code.co_filename.removeprefix(ROOT)}:{code.co_qualname}"
        return k

    def tracer(self, frame, event, arg):
        code = frame.f_code
        if event != "call" or not code.co_filename.startswith(ROOT) or code.co_name == "<module>":
            return None
        k = self.name(code)
        if self.key is not None and k != self.key:
            return None

        def local(f, e, a):
            if e == "line":
                n = self.n[k] = self.n.get(k, 0) + 1
                if n == self.at and self.key is not None and self.where is None:
                    self.where = f"{k}:{f.f_lineno - f.f_code.co_firstlineno}"
                    raise self.exc("simulated")
            return local
        return local

    def __enter__(self):
        sys.settrace(self.tracer)

    def __exit__(self, *a):
        sys.settrace(None)


def case(rng, i, tier):
    pool = []
    for j in range(rng.choice([1, 1, 1, 2])):
        c = net.sample_quantized(rng) if not j and rng.random() < 0.12 else net.sample_subject(rng, onnx_p=0.65, opt_p=0.6, bin_p=0.25, n4=rng.choice([1, 2, 3, 5]), n2=rng.choice([0, 1, 2]))
        c["n"] = rng.choice([1, 2])
        c["debug"] = rng.random() < 0.1 and c["recipe"].get("fmt", "onnx") == "onnx" and not c.get("gdf")
        c["more"] = {} if c["debug"] else net.sample_options(rng)
        pool.append(c)
    h = []
    for _ in range(rng.randint(3, 7)):
        h.append([rng.choice(["load", "gen", "gen", "infer", "infer", "again"]), rng.randrange(len(pool)),
                  [rng.random(), rng.choice([rng.random(), rng.random(), 0.0, 0.999]), rng.choice(sorted(EXC))] if rng.random() < 0.6 else None])
    for k in range(len(pool)):
        h += [[x, k, None] for x in rng.choice([["gen", "infer"], ["infer", "gen"], ["load", "gen"], ["load", "infer", "gen"]])]
    return {"pool": pool, "history": h}


def make(p, s, X):
    with net.quiet():
        return net.generator(p, s.src, X, **{**s.kw, **p["more"], **({"debug_mode": "onnx"} if p["debug"] else {}),
                                             "makefile_properties": {"compiler": "gcc", "compiler_flags": ["-O1"], "linker_flags": ["-lm"]}})


def act(g, what, o):
    with net.quiet():
        if what == "infer":
            o.mkdir()
            g.compute_inference(str(o))
        else:
            g.generate_c_files(o)


def result(o, p):
    r = hash_dir(o)
    if p["debug"]:  # the source names the directory it was generated in
        r.pop("inference.c", None)
    return r


def alone(p, d):
    """What one model gives when nothing else is done, and the lines that each operation executes."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = {}
        try:
            (d / "alone").mkdir()
            if p["recipe"].get("fmt") == "quant":
                os.chdir(d / "alone")  # where the configuration of the target is looked for
            s = net.subject(p, d / "alone")
            X = s.inputs(p, p["n"])
            with (t := Lines()):
                g = make(p, s, X)
            out["load"] = [None, t.n]
            for what in ("gen", "infer"):
                o = d / "alone" / what
                with (t := Lines()):
                    act(g, what, o)
                out[what] = [result(o, p), t.n]
        except Skip as e:
            out = {"skip": str(e)}
        except Exception as e:  # noqa: BLE001  a matter of C04 and C05
            out = {"skip": f"not generated or evaluated: {type(e).__name__}"}
        finally:
            with os.fdopen(w, "w") as f:
                json.dump(out, f)
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def execute(c, d):
    here = os.getcwd()
    try:
        return simulate(c, d)
    finally:
        sys.settrace(None)
        os.chdir(here)


def simulate(c, d):
    want, subs, gens = [], [], []
    for k, p in enumerate(c["pool"]):
        (d / f"p{k}").mkdir()
        if p["recipe"].get("fmt") == "quant":
            os.chdir(d / f"p{k}")
        w = alone(p, d / f"p{k}")
        if "skip" in w:
            raise Skip(w["skip"])
        want.append(w)
        s = net.subject(p, d / f"p{k}")
        subs.append((s, s.inputs(p, p["n"])))
        gens.append(None)
    frozen = [[hashlib.sha256(X.tobytes()).hexdigest(), hashlib.sha256(s.src.SerializeToString()).hexdigest() if hasattr(s.src, "SerializeToString") else ""]
              for s, X in subs]
    viol, sites, st = [], [], {"operations": 0, "interrupted": {}, "completed_in_spite": 0}
    broken = {}  # directories a generation was interrupted in
    for n, (what, k, cut) in enumerate(c["history"]):
        p, (s, X), w = c["pool"][k], subs[k], want[k]
        if p["recipe"].get("fmt") == "quant":
            os.chdir(d / f"p{k}")
        again = what == "again"
        if again:
            if k not in broken:
                continue
            what, o = "gen", broken.pop(k)
        else:
            o = d / f"o{n}"
        if gens[k] is None and what != "load":
            gens[k] = make(p, s, X)
        t = Lines()
        if cut:
            lines = w[what][1]
            key = sorted(lines)[int(cut[0] * len(lines))]
            t = Lines(key, 1 + int(cut[1] * lines[key]), EXC[cut[2]])
        st["operations"] += 1
        raised = None
        try:
            if cut:
                with t:
                    g = make(p, s, X) if what == "load" else act(gens[k], what, o)
            else:
                g = make(p, s, X) if what == "load" else act(gens[k], what, o)
            if what == "load":
                gens[k] = g
        except BaseException as e:  # noqa: BLE001
            raised = e
        did = "loading" if what == "load" else "generating" if what == "gen" else "evaluating"
        if t.where:
            sites.append(t.where)
            st["interrupted"][f"{what} {cut[2]}"] = st["interrupted"].get(f"{what} {cut[2]}", 0) + 1
            if raised is not None:
                if what == "gen" and o.exists():
                    broken[k] = o
                continue
            st["completed_in_spite"] += 1
        if raised is not None:
            if again and isinstance(raised, FileExistsError):
                continue
            if isinstance(raised, (KeyboardInterrupt, SystemExit)):
                raise raised
            viol.append(["RAISED", f"{did} model {k} fails ({type(raised).__name__}: {str(raised)[:120]}) after an exception at {sites}"])
            break
        if what != "load":
            got = result(o, p)
            if got != w[what][0]:
                names = sorted(x for x in {*got, *w[what][0]} if got.get(x) != w[what][0].get(x))
                viol.append(["DIFFERS" if not t.where else "SWALLOWED", f"{did} model {k} gives other {', '.join(names)[:120]} "
                             + (f"although an exception at {t.where} was swallowed" if t.where else f"after an exception at {sites}")])
                break
    after = [[hashlib.sha256(X.tobytes()).hexdigest(), hashlib.sha256(s.src.SerializeToString()).hexdigest() if hasattr(s.src, "SerializeToString") else ""]
             for s, X in subs]
    if after != frozen:
        viol.append(["MUTATED", f"an object of the caller was modified, after an exception at {sites}"])
    return {"viol": viol, "stats": st, "traces": [digest(sites)], "sig": digest([[p["recipe"] for p in c["pool"]], c["history"]]), "nontrivial": bool(sites),
            "sample": {"interrupted": sites[:5]}}


def shrink(c):
    h = c["history"]
    for i in range(len(h) - 1):
        yield {**c, "history": h[:i] + h[i + 1:]}
    for i, x in enumerate(h):
        if x[2]:
            yield {**c, "history": [*h[:i], [x[0], x[1], None], *h[i + 1:]]}
    if len(c["pool"]) > 1:
        for k in range(len(c["pool"])):
            yield {"pool": [c["pool"][k]], "history": [[a, 0, f] for a, j, f in h if j == k]}
    for i, p in enumerate(c["pool"]):
        for x in net.shrink_net(p):
            yield {**c, "pool": [*c["pool"][:i], x, *c["pool"][i + 1:]]}
