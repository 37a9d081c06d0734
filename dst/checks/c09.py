"""C09: storage faults and crashes during generation are never silent and never destructive."""

from __future__ import annotations

import sys

from dst import iofault, net
from dst.common import Skip, digest

from acetone_nnet.cli.generate import acetone_generate

ID = "C09"
LEVEL = "exploration"
QUICK, THOROUGH = 700, 20000
RULE = ("a case is a random model, an operation of the generator (generate, evaluate, the command line), files that are already there and "
        "faults at chosen storage operations (errors, short writes, a device that stays full, a size limit, a crash before, within or after an "
        "operation); non-trivial when a fault really occurred; distinct by model, operation and trace of storage operations")
REAL = ["CodeGenerator, its command line, Python and numpy file writing"]
STUB = ["system calls that change files below the output directory (fault injection in front of the real ones)"]
ASSUMPTIONS = ["a crash is that of the process: what was written before it survives",
               "files that generation never names are not looked at, except that they must not change"]
TRACE_MEASURE = "hash of the sequence of storage operations and faults"
ERRS = ["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS", "EMFILE", "EINTR", "EFBIG"]


def sample_fault(rng, kind=None):
    k = kind or rng.choice(["err", "err", "err", "short", "sticky", "sticky", "before", "mid", "mid", "after"])
    return {"frac": rng.choice([rng.random(), rng.random(), 0.0, 0.999]), "kind": k, "err": rng.choice(ERRS) if k in ("err",) else "ENOSPC"}


def case(rng, i, tier):
    act = rng.choice(["gen", "gen", "gen", "infer", "cli"])
    c = net.sample_subject(rng, onnx_p=0.7, bin_p=0.5, n4=rng.choice([1, 2, 3]), n2=rng.choice([0, 1]))
    if act == "cli":
        while c["recipe"].get("fmt") == "torch" or c.get("gdf"):
            c = net.sample_subject(rng, onnx_p=0.6, bin_p=0.5, n4=rng.choice([1, 2, 3]), n2=rng.choice([0, 1]))
        c["as"] = "path"
    c["n"] = rng.choice([1, 2, 40])
    c["act"] = act
    c["faults"] = [sample_fault(rng) for _ in range(rng.choice([1, 1, 1, 1, 2, 3]))]
    if rng.random() < 0.1:
        c["faults"] = []
        c["fsize"] = rng.random()
    c["pre"] = sorted(rng.sample(range(12), rng.choice([1, 1, 2]))) if rng.random() < 0.12 else []
    c["made"] = rng.random() < 0.5
    c["probes"] = [{**sample_fault(rng, rng.choice(["short", "short", "err", "sticky"])), "file": rng.random() if rng.random() < 0.7 else None}
                   for _ in range(6)]
    return c


def place(f, log):
    """The operation that a fault hits: somewhere in the whole, or somewhere in what concerns one file."""
    ops = len(log)
    if f.get("file") is None:
        return 1 + int(f["frac"] * ops)
    by = {}
    for i, x in enumerate(log):
        w = x.split()
        if len(w) > 2 and w[1] == "write":
            by.setdefault(w[2], []).append(i + 1)
    if not by:
        return 1 + int(f["frac"] * ops)
    mine = by[sorted(by)[int(f["file"] * len(by))]]
    return mine[int(f["frac"] * len(mine))]


def content(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(d.rglob("*")) if p.is_file()} if d.exists() else {}


def operation(c, s, X, holder):
    """What runs under faults; holder keeps the generator so that it can be used again."""
    def make():
        if "g" not in holder:
            holder["g"] = net.generator(c, s.src, X, **s.kw)
        return holder["g"]

    def run(out):
        if c["act"] == "gen":
            make().generate_c_files(out)
        elif c["act"] == "infer":
            out.mkdir(parents=True, exist_ok=True)
            make().compute_inference(str(out))
        else:
            argv = sys.argv
            sys.argv = ["acetone_generate", "--model", str(s.src), "--function", "inference", "--output", str(out), "--dataset-size", str(c["n"])]
            sys.argv += ["--conv", (c.get("versions") or {}).get("Conv2D", "6loops")]
            if c.get("bin"):
                sys.argv += ["--bin_dataset", "1"]
            if c.get("opt"):
                sys.argv += ["--optimization", "1"]
            if s.kw.get("normalize"):
                sys.argv += ["--normalize"]
            try:
                acetone_generate()
            finally:
                sys.argv = argv
    return make, run


def execute(c, d):
    s = net.subject(c, d)
    X = s.inputs(c, c["n"])
    holder = {}
    make, run = operation(c, s, X, holder)
    ref = d / "ref" / "a" / "out"
    r0 = iofault.attempt(lambda: run(ref), ref.parents[1])
    if r0["raised"] or r0["crashed"]:
        raise Skip(f"not generated: {r0['raised']}")
    want = content(ref)
    ops = len(r0["log"])
    base = d / "t"
    base.mkdir()
    out = base / "a" / "out"
    names = sorted(want)
    pre = {}
    if c["made"] or c["pre"]:
        out.mkdir(parents=True)
        (out / "notes.txt").write_bytes(b"kept")
        pre["notes.txt"] = b"kept"
        for k in c["pre"]:
            n = names[k % len(names)]
            pre[n] = b"/* edited by hand */\n" * (k + 1)
            (out / n).write_bytes(pre[n])
    result = "output_python.txt" if c["act"] != "gen" else None  # the output of an evaluation replaces an older one
    clash = any(n in want and n != result for n in pre)
    faults = [{"at": 1 + int(f["frac"] * ops), "kind": f["kind"], "err": f["err"]} for f in c["faults"]]
    fsize = int(c["fsize"] * max(map(len, want.values()))) if c.get("fsize") is not None else None
    viol = []

    def check(cond, kind, text):
        if not cond:
            viol.append([kind, text])

    def survey(when, done, keep):
        now = content(out)
        for n, b in keep.items():
            if n in want and n == result:
                continue
            check(now.get(n) == b, "OVERWRITTEN", f"{when}: {n} was there before and has changed")
        if done:
            for n in names:
                if n not in keep or n == result:
                    check(now.get(n) == want[n], "SILENT", f"{when}: success reported, but {n} is "
                          + ("missing" if n not in now else f"wrong ({len(now[n])} bytes for {len(want[n])})"))
        else:
            for n in names:
                if n in now and n not in keep and n != result:
                    check(want[n].startswith(now[n]), "GARBAGE", f"{when}: {n} holds what does not belong to it")
        return now

    def again(o):
        """The same generator, afterwards and without faults."""
        if c["act"] == "cli":
            return None
        make().generate_c_files(d / "again")
        make().compute_inference(str(d / "again"))
        return "ok"

    r = iofault.attempt(lambda: run(out), base, faults, again if c["act"] != "cli" else None, fsize)
    done = not r["crashed"] and not r["raised"]
    hard = [x for x in r["log"] if x.endswith(" error")]
    mid = survey("after the faults", done, pre)
    if not r["crashed"]:
        benign = not hard and fsize is None
        if clash:
            check(not done, "SILENT", "generation into a directory that holds files of the same name reports success")
        elif benign:
            check(done, "REFUSED", f"fails with {r['raised']} ({r.get('text')}) although no operation failed")
        if c["act"] != "cli":
            check(r["after"] == "ok", "STUCK", f"afterwards the generator cannot be used: {r['after']}")
            got = content(d / "again")
            for n in names:
                if r["after"] == "ok":
                    check(got.get(n) == want[n], "STUCK", f"afterwards the same generator writes another {n}")
    # a new process tries again in the same directory
    holder.clear()
    r2 = iofault.attempt(lambda: run(out), base)
    survey("second attempt", not r2["raised"], mid if r2["raised"] else pre)
    check(not clash or r2["raised"], "SILENT", "a second attempt in a directory that holds files of the same name reports success")
    # and in another one
    r3 = iofault.attempt(lambda: run(d / "other"), d / "other")
    check(not r3["raised"] and content(d / "other") == want, "STUCK", f"later generation elsewhere fails or differs ({r3['raised']})")
    # one fault each, in directories of their own
    probes, seen = [], []
    for k, f in enumerate(c.get("probes", [])):
        o = d / f"p{k}" / "a" / "out"
        pf = {"at": place(f, r0["log"]), "kind": f["kind"], "err": f["err"]}
        q = iofault.attempt(lambda: run(o), o.parents[1], [pf])
        now = content(o)
        probes.append(q)
        seen.append(q["log"])
        for n in names:
            if not q["raised"]:
                check(now.get(n) == want[n], "SILENT", f"success reported, but {n} is " + ("missing" if n not in now else f"wrong ({len(now[n])} bytes for {len(want[n])})"))
            elif n in now:
                check(want[n].startswith(now[n]), "GARBAGE", f"{n} holds what does not belong to it")
        check(not q["raised"] or any(x.endswith(" error") for x in q["log"]), "REFUSED", f"fails with {q['raised']} ({q.get('text')}) although no operation failed")
    trace = digest([r["log"] or [faults, r["crashed"]], seen])
    happened = r["crashed"] or bool(hard) or r["fired"] or fsize is not None
    st = {"storage_operations": ops, "attempts": 4 + len(probes), "crashes": int(r["crashed"]), "errors_raised": sum(bool(q["raised"]) for q in [r, *probes]), "existing_files": int(bool(pre)),
          "faults_fired": {}, "on_operation": {}}
    for x in sum((q["log"] for q in probes), r["log"]):
        w = x.split()
        if w[-1] in ("error", "short"):
            st["faults_fired"][w[-1]] = st["faults_fired"].get(w[-1], 0) + 1
            st["on_operation"][w[1]] = st["on_operation"].get(w[1], 0) + 1
    if r["crashed"]:
        st["faults_fired"]["crash"] = 1
    if fsize is not None:
        st["faults_fired"]["size limit"] = 1
    for f in c["faults"]:
        if f["kind"] == "err" and hard:
            st["faults_fired"][f["err"]] = st["faults_fired"].get(f["err"], 0) + 1
    return {"viol": viol[:5], "stats": st, "traces": [trace], "nontrivial": bool(happened) or clash,
            "sig": digest([c["recipe"], c["act"], c["faults"], c["pre"], trace]), "sample": {"operations": ops, "log": r["log"][-6:], "raised": r["raised"]}}


def shrink(c):
    for i in range(len(c.get("probes", []))):
        yield {**c, "faults": [], "pre": [], "probes": [c["probes"][i]]}
    if c.get("probes"):
        yield {**c, "probes": []}
    if len(c["faults"]) > 1:
        for i in range(len(c["faults"])):
            yield {**c, "faults": c["faults"][:i] + c["faults"][i + 1:]}
    if c["pre"]:
        yield {**c, "pre": []}
        for i in range(len(c["pre"])):
            if len(c["pre"]) > 1:
                yield {**c, "pre": c["pre"][:i] + c["pre"][i + 1:]}
    if c["made"]:
        yield {**c, "made": False}
    if c["n"] > 1:
        yield {**c, "n": 1}
    if c["act"] != "cli":
        yield from net.shrink_net(c)
