"""C11: the generated program reports what it could not read or write."""

from __future__ import annotations

import re

import numpy as np

from dst import csim_build as cs
from dst import net
from dst.checks import c01
from dst.common import Skip, digest

ID = "C11"
LEVEL = "exploration"
QUICK, THOROUGH = 420, 16000
RULE = ("a case is a generated program (inputs compiled in, or read from a file), buffer sizes, and a series of runs with faults at chosen stdio "
        "operations: failing opens, writes, reads and closes, short writes and reads, a disk that fills up, input files that are missing, cut, "
        "garbled or laid out in other ways; non-trivial when a fault really occurred; distinct by program, input file and faults")
REAL = c01.REAL
STUB = c01.STUB
ASSUMPTIONS = ["faults happen at the level of the C library's device operations; the library itself is glibc's",
               "numbers are decimal or C hexadecimal; texts that only differ in how scanf backs up from a malformed exponent are not judged"]
prepare = c01.prepare
ERR = {"EIO": 5, "ENOSPC": 28, "EDQUOT": 122, "EACCES": 13, "EINTR": 4, "ENOMEM": 12}
NUM = re.compile(rb"[+-]?(?:0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][+-]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)")


def sample_run(rng, ext):
    r = {"stdio": rng.choice([0, 0, 1, 2, 7, 64, 512, 4096]), "faults": [], "sched": cs.sample_sched(rng)}
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
        k = rng.choice(["write", "write", "write", "close", "open", "disk", "short", "short"] + (["read", "read", "sread", "sread"] if ext else []))
        r["faults"].append({"kind": k, "frac": rng.choice([rng.random(), rng.random(), 0.0, 0.999]), "err": rng.choice(sorted(ERR)), "len": rng.choice([1, 1, 2, 7, 100])})
    if ext:
        r["file"] = rng.choice([None, None, None, "cut", "cut", "cut", "missing", "empty", "garble", "garble", "extra"])
        r["at"] = rng.choice([rng.random(), rng.random(), 0.999, 0.0, 1.0])
        r["what"] = rng.choice(["x", ",", "[", "--1", "nil", ";", "\x00", "1.5.2", "#"])
        r["sep"] = rng.choice([" ", "\n", "\t", "  ", "\r\n", " \n "])
        r["style"] = rng.choice(["%.9g", "%.17g", "hex", "%.9e", "%+.17e"])
    return r


def case(rng, i, tier):
    while True:
        c = net.sample_subject(rng, onnx_p=0.75, bin_p=0.2, n4=rng.choice([0, 1, 1, 2]), n2=rng.choice([0, 1]), f64_p=0.25)
        if c["recipe"].get("fmt") != "json" or rng.random() < 0.3:
            break
    c["ext"] = rng.random() < 0.45
    c["n"] = rng.choice([1, 2, 3, 33])
    c["hex"] = rng.random() < 0.8
    c["verbose"] = rng.random() < 0.2
    if c["ext"]:
        c["bin"] = False
    c["runs"] = [sample_run(rng, c["ext"]) for _ in range(rng.randint(2, 6))]
    return c


def text_of(X, run):
    f = X.ravel()
    if run["style"] == "hex":
        t = [float(v).hex() for v in f]
    else:
        st = run["style"] if X.dtype == np.float32 or run["style"] in ("%.17g", "%+.17e") else "%.17g"
        t = [st % v for v in f]
    return t, run["sep"]


def input_file(X, run):
    t, sep = text_of(X, run)
    k = run["file"]
    if k == "garble":
        t[min(int(run["at"] * len(t)), len(t) - 1)] = run["what"]
    b = sep.join(t).encode("latin1") + (b"\n" if run["at"] < 0.5 else b"")
    if k == "cut":
        b = b[:int(run["at"] * len(b))]
    if k == "empty":
        b = b" \n" if run["at"] < 0.5 else b""
    if k == "extra":
        b += sep.encode() + b"17.5 rest of the line"
    return b


def scan(b, need, dt):
    """What a program that reads `need` numbers finds: values, None (a number is missing), or 'either'."""
    out, p = [], 0
    while len(out) < need:
        while p < len(b) and b[p] in b" \t\n\v\f\r":
            p += 1
        m = NUM.match(b, p)
        rest = b[p:p + 4].lower()
        if not m:
            if re.match(rb"[+-]?(i|n|0x?|\.)", rest):
                return "either"
            return None
        s = m[0].decode()
        p = m.end()
        if b[p:p + 1] and b[p:p + 1] in b"eEpPxX":
            return "either"
        out.append(float.fromhex(s) if "x" in s.lower() else float(s))
    return np.array(out, dtype=np.float64).astype(dt)


def execute(c, d):
    s = net.subject(c, d)
    X = s.inputs(c, c["n"])
    kw = {**s.kw, "to_hex": c["hex"], "verbose": c["verbose"], "makefile_properties": dict(cs.SIM_PROPS)}
    progs = {}
    viol, st = [], {"attempts": 0, "faults": {}, "soft_faults": 0, "failed_runs": 0, "accepted": 0, "refused_files": 0, "unjudged_files": 0}

    def program(data, ext, name):
        try:
            with net.quiet():
                if ext:
                    g = net.generator(c, s.src, None, n=c["n"], external_input=True, **kw)
                else:
                    g = net.generator(c, s.src, data, **kw)
                g.generate_c_files(d / name)
        except Exception as e:  # noqa: BLE001
            raise Skip(f"not generated: {type(e).__name__}") from None
        try:
            return cs.build(d / name, external=ext)
        except cs.BuildError:
            if ext:
                cs.build(d / "plain") if (d / "plain").exists() else None
                viol.append(["BUILD", "a program that reads its inputs does not compile"])
                return None
            raise Skip("the generated code does not compile") from None

    plain = program(X, False, "plain")
    exe = program(None, True, "ext") if c["ext"] else plain
    if exe is None:
        return {"viol": viol, "stats": st}
    where = d / ("ext" if c["ext"] else "plain")
    full = input_file(X, {"style": "hex", "sep": " ", "file": None, "at": 0.0})
    arg = " in.txt" if c["ext"] else ""
    first = [f"FILE in.txt\n{full.hex()}"] if c["ext"] else []
    # without faults, with every buffer size: what is written and by how many operations
    bufs = sorted({r["stdio"] for r in c["runs"]})
    r0 = cs.run(exe, [*first, *[x for b in bufs for x in (f"STDIO {b}", f"MAIN ref.txt{arg}")]], s.dtype, where)
    viol += [v for v in r0.viol if v[0] in c01.VIOL - {"RACE"}]
    clean = dict(zip(bufs, [o for o in r0.ops if o.cmd == "MAIN"]))
    if c["ext"]:
        rp = cs.run(plain, ["STDIO 0", "MAIN ref.txt"], s.dtype, d / "plain")
        want = rp.ops[-1].file
    else:
        want = clean[bufs[0]].file
    for b, o in clean.items():
        if not viol and (o.rc != 0 or o.file != want):
            viol.append(["REFUSED", f"without any fault the program ends with {o.rc} and writes {'nothing' if o.file is None else str(len(o.file)) + ' bytes'}"
                         f" for {len(want or b'')} (buffer {b})"])
    if viol or want is None:
        return {"viol": viol or [["REFUSED", "the program writes nothing"]], "stats": st}
    if b"nan" in want or len(want.split(b"\n")) != c["n"] + 1:
        if b"nan" not in want:
            viol.append(["OUTPUT", f"{len(want.split(chr(10).encode())) - 1} rows for {c['n']} tests"])
            return {"viol": viol, "stats": st}
    calls = cs.run(plain, [x for k in range(c["n"]) for x in ("SCRIBBLE 0 0 0", f"CALL 0 {k} 0")], s.dtype, d / "plain")
    viol += [v for v in calls.viol if v[0] in c01.VIOL - {"RACE"}]
    preds = [o.pred for o in calls.ops if o.cmd == "CALL"]
    if not viol:
        for k, (line, p) in enumerate(zip(want.decode().splitlines(), preds)):
            v = np.array([float.fromhex(t) if c["hex"] else float(t) for t in line.split()])
            if len(v) != len(p) or not (v.astype(s.dtype).tobytes() == p.tobytes() if c["hex"] else np.all(np.abs(v - p) <= 6e-6 * np.abs(p) + 1e-44)):
                viol.append(["OUTPUT", f"row {k} of the output is not what the network predicts: {line[:60]} for {p[:3]}"])
                break
    if viol:
        return {"viol": viol, "stats": st}
    script = list(first)
    expects = []
    other = {}
    for r in c["runs"]:
        io = clean[r["stdio"]].io  # errors, short, opens, writes, closes, reads
        exp = want
        script += ["NOFAULTS", r["sched"], f"STDIO {r['stdio']}"]
        name = "in.txt"
        if c["ext"]:
            if r["file"] == "missing":
                name, exp = "absent.txt", None
            else:
                b = input_file(X, r)
                v = scan(b, X.size, s.dtype)
                script.append(f"FILE in.txt\n{b.hex()}")
                if v is None:
                    exp = None
                    st["refused_files"] += 1
                elif isinstance(v, str):
                    exp = "either"
                    st["unjudged_files"] += 1
                elif v.tobytes() != X.ravel().tobytes():
                    k = f"p{len(other)}"
                    e2 = program(v.reshape(X.shape), False, k)
                    exp = cs.run(e2, ["MAIN ref.txt"], s.dtype, d / k).ops[-1].file
                    other[k] = 1
        for f in r["faults"]:
            k = f["kind"]
            if k == "disk":
                script.append(f"DISK {int(f['frac'] * (len(want) + 1))}")
            else:
                idx = {"open": 2, "write": 3, "short": 3, "close": 4, "read": 5, "sread": 5}[k]
                nth = 1 + min(int(f["frac"] * max(io[idx], 1)), max(io[idx], 1) - 1)
                err, ln = (0, f["len"]) if k in ("short", "sread") else (ERR[f["err"]], -1)
                script.append(f"FAULT { {'short': 'write', 'sread': 'read'}.get(k, k) } {nth} {err} {ln}")
        script.append(f"MAIN out.txt{' ' + name if c['ext'] else ''}")
        expects.append((exp, r))
    script += ["NOFAULTS", "STDIO 0", *first, f"MAIN out.txt{arg}"]
    expects.append((want, None))
    r1 = cs.run(exe, script, s.dtype, where)
    viol += [v for v in r1.viol if v[0] in c01.VIOL - {"RACE"}]
    hit = 0
    for o, (exp, r) in zip([o for o in r1.ops if o.cmd == "MAIN"], expects):
        if o.io is None:
            continue
        st["attempts"] += 1
        hard, soft = o.io[0], o.io[1]
        hit += hard + soft + int(exp is None)
        st["soft_faults"] += soft
        if hard:
            for f in r["faults"]:
                st["faults"][f["kind"]] = st["faults"].get(f["kind"], 0) + 1
        st["failed_runs"] += int(o.rc != 0)
        st["accepted"] += int(o.rc == 0)
        what = "afterwards" if r is None else f"{[(f['kind'], f['err']) for f in r['faults']]}" + (f", input file {r['file']}" if c["ext"] else "")
        if exp == "either":
            continue
        if o.rc == 0:
            if exp is None:
                viol.append(["SILENT", f"{what}: the program ends with 0 although its inputs are missing"])
            elif o.file != exp:
                viol.append(["SILENT", f"{what}: the program ends with 0 but its output is "
                             + ("missing" if o.file is None else f"wrong or incomplete ({len(o.file)} bytes for {len(exp)})")])
        elif exp is not None and not hard:
            viol.append(["REFUSED", f"{what}: the program fails with {o.rc} although nothing failed ({soft} short transfers)"])
    return {"viol": viol[:5], "stats": {**cs.stats_of(r1), **st}, "traces": [r1.trace], "nontrivial": hit > 0,
            "sig": digest([c["recipe"], c["runs"], c["ext"], c["hex"]]), "sample": {"trace": r1.trace, "io": clean[bufs[0]].io, "external": c["ext"]}}


def shrink(c):
    rs = c["runs"]
    if len(rs) > 1:
        for i in range(len(rs)):
            yield {**c, "runs": [rs[i]]}
    for i, r in enumerate(rs):
        for k in range(len(r["faults"])):
            yield {**c, "runs": [*rs[:i], {**r, "faults": r["faults"][:k] + r["faults"][k + 1:]}, *rs[i + 1:]]}
        if not r["sched"].startswith("SCHED run"):
            yield {**c, "runs": [*rs[:i], {**r, "sched": "SCHED run 1 0 1"}, *rs[i + 1:]]}
        if r["stdio"]:
            yield {**c, "runs": [*rs[:i], {**r, "stdio": 0}, *rs[i + 1:]]}
    if c["n"] > 1:
        yield {**c, "n": 1}
    for k in ("verbose",):
        if c[k]:
            yield {**c, k: False}
    yield from net.shrink_net(c)
