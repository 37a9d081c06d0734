"""C05: the Python evaluation agrees with the model, whatever was done with the generator before."""

from __future__ import annotations

import numpy as np

from dst import net
from dst.checks import c04
from dst.common import Skip, digest

ID = "C05"
LEVEL = "exploration"
QUICK, THOROUGH = 2500, 30000
RULE = ("a case is a random model and a history of calls on its generator (generations, evaluations, other generators of the same model "
        "object, evaluations whose output cannot be opened or written); every completed evaluation is compared with an independent "
        "evaluation of the model and, bit for bit, with the other evaluations; distinct by model recipe and history")
REAL = ["CodeGenerator: importers, optimisation, code generation, compute_inference"]
STUB = ["none; write failures come from a full device behind output_python.txt"]
ASSUMPTIONS = c04.ASSUMPTIONS
OPS = ["infer", "infer", "gen", "other", "other_opt", "full", "missing"]


def case(rng, i, tier):
    c = net.sample_subject(rng, focus=None if i % 2 else i // 2, bin_p=0.1, n4=rng.choice([1, 1, 2, 2, 3, 4, 6]), n2=rng.choice([0, 0, 1, 2]))
    c["n"] = rng.choice([0, 1, 2, 3, 5])
    c["ops"] = [rng.choice(OPS) for _ in range(rng.randint(1, 5))] + ["infer"]
    return c


def rows_of(text):
    return net.parse_rows(text)


def execute(c, d):
    s = net.subject(c, d)
    X = s.inputs(c, max(1, c["n"]))
    ref = c04.finite(s, X)
    tol = s.ref.tolerance(X, ref)
    X, ref = X[:c["n"]], ref[:c["n"]]
    X0 = X.copy()
    src0 = s.src.SerializeToString() if hasattr(s.src, "SerializeToString") else None
    viol, first, done, faults = [], None, 0, {}
    try:
        with net.quiet():
            g = net.generator(c, s.src, X, **s.kw)
    except Exception as e:  # noqa: BLE001  a matter of C04
        raise Skip(f"not generated: {type(e).__name__}") from None
    for k, op in enumerate(c["ops"]):
        o = d / f"o{k}"
        if op != "missing":
            o.mkdir()
        try:
            with net.quiet():
                if op == "gen":
                    g.generate_c_files(o)
                    continue
                if op.startswith("other"):
                    h = net.generator({**c, "opt": op == "other_opt", "xseed": 3}, s.src, X, **s.kw)
                    h.compute_inference(o)
                    continue
                if op == "full":
                    (o / "output_python.txt").symlink_to("/dev/full")
                last = g.compute_inference(o)
        except OSError as e:
            if op in ("full", "missing"):
                faults[op] = faults.get(op, 0) + 1
                continue
            viol.append(["RAISED", f"{op} fails: {type(e).__name__}: {str(e)[:200]}"])
            break
        except Exception as e:  # noqa: BLE001
            if op == "gen":
                raise Skip(f"not generated: {type(e).__name__}") from None
            if s.loose:
                raise Skip("refuses the model") from None
            viol.append(["RAISED", f"{op} fails: {type(e).__name__}: {str(e)[:200]}"])
            break
        if op == "full":
            if c["n"]:
                viol.append(["SILENT", "output_python.txt could not be written and nothing was reported"])
            continue
        if op == "missing":
            viol.append(["SILENT", "the directory does not exist and nothing was reported"])
            continue
        text = (o / "output_python.txt").read_text()
        done += 1
        if first is None:
            first = text
            if len(text.splitlines()) != c["n"]:
                viol.append(["WRONG", f"{len(text.splitlines())} rows for {c['n']} tests"])
            elif c["n"]:
                got = rows_of(text)
                viol += c04.differs(got, ref.astype(np.float64), tol, "compute_inference")
                if not viol and np.asarray(last, dtype=np.float64).ravel().tolist() != got[-1].tolist():
                    viol.append(["WRONG", "the returned prediction is not the last one written"])
        elif text != first:
            viol.append(["HISTORY", f"evaluation {k} differs from the first one after {c['ops'][:k]}"])
        if viol:
            break
    if X.tobytes() != X0.tobytes():
        viol.append(["MUTATED", "the caller's dataset was modified"])
    if src0 is not None and s.src.SerializeToString() != src0:
        viol.append(["MUTATED", "the caller's model was modified"])
    return {"viol": viol, "stats": {"evaluations": done, "faults": faults, "ops": {k: c["ops"].count(k) for k in set(c["ops"])},
                                    "layers": {k: s.used.count(k) for k in set(s.used)}},
            "sig": digest([c["recipe"], c["ops"], c["opt"]]), "nontrivial": done > 0 and bool(s.used),
            "sample": {"rows": c["n"], "ops": c["ops"]}}


def shrink(c):
    for i in range(len(c["ops"]) - 1):
        yield {**c, "ops": c["ops"][:i] + c["ops"][i + 1:]}
    if c["n"] > 1:
        yield {**c, "n": 1}
    yield from net.shrink_net(c)
