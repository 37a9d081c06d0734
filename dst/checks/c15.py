"""C15: the comparison of two output files is right about every value, or fails."""

from __future__ import annotations

import contextlib
import io
import math
import re
import sys

import numpy as np

from dst import damage, net  # noqa: F401  loads the package once, before the runs are forked
from dst.common import digest

from acetone_nnet.cli import compare

ID = "C15"
LEVEL = "exploration"
QUICK, THOROUGH = 2500, 150000
RULE = ("a case is a pair of output files, as the generated program and the evaluation write them, that differ in chosen values, and a history of "
        "comparisons with one or both cut, zeroed or torn, or read with errors and short reads; non-trivial when something was damaged or differs; "
        "distinct by files and history")
REAL = ["acetone_compare and compare_files, Python reading files"]
STUB = ["system calls that open and read the two files (fault injection in front of the real ones)"]
ASSUMPTIONS = ["relative error is that of the larger of the two maxima reported by the tool's own definition: |a-b| / ((|a|+|b|)/2)"]
TRACE_MEASURE = "hash of the reports and read operations"


def case(rng, i, tier):
    c = {"seed": rng.randrange(1 << 31), "rows": rng.choice([0, 1, 2, 3, 7, 40]), "cols": rng.choice([1, 2, 5, 10]),
         "fmt": [rng.choice(["hex", "py"]), rng.choice(["hex", "py"])], "prec": rng.choice([None, "float", "double"]),
         "kind": rng.choice(["same", "same", "tiny", "one", "many", "nan", "inf", "bothnan", "sign", "cols"]), "scale": rng.choice([1e-30, 1.0, 1.0, 1.0, 1e10, 3.4e38, 1e-42, 1e-309]),
         "ask": rng.choice([0, 0, 0, -1, 1, 5])}
    h = [["ok"]]
    for _ in range(rng.randint(4, 12)):
        k = rng.choice(["damage", "damage", "damage", "read", "read", "ok"])
        if k == "damage":
            h.append([k, [[j, damage.sample_damage(rng, ["cut", "cut", "cutline", "zero", "drop", "dup", "dropline", "dupline", "stale"])]
                          for j in rng.choice([[0], [1], [1], [0, 1]])]])
        else:
            h.append([k, damage.sample_reads(rng)] if k == "read" else [k])
    c["history"] = h
    return c


def values(c):
    g = np.random.default_rng(c["seed"])
    scale = c["scale"]
    if c["prec"] == "double" and scale == 3.4e38:
        scale = 8e307  # the largest for which the sum of two is a number
    A = (g.uniform(-1, 1, (c["rows"], c["cols"])) * scale).astype(np.float32 if c["prec"] != "double" else np.float64)
    B = A.copy()
    if not A.size:
        return A, B
    j = g.integers(A.size)
    k = c["kind"]
    if k == "tiny":
        B.flat[j] = np.nextafter(B.flat[j], B.dtype.type(9))
    elif k in ("one", "sign"):
        B.flat[j] = -B.flat[j] if k == "sign" else B.flat[j] * 1.25
    elif k == "many":
        B = (B * g.uniform(0.9, 1.1, B.shape)).astype(B.dtype)
    elif k == "nan":
        (A if g.integers(2) else B).flat[j] = np.nan
    elif k == "bothnan":
        A.flat[j] = B.flat[j] = np.nan
    elif k == "inf":
        B.flat[j] = np.inf
    return A, B


def write(a, fmt, drop):
    out = []
    for r in a:
        t = [float(v).hex().replace("0000000p", "p") for v in r]
        if drop and len(out) == len(a) // 2 and len(t) > 1:
            t = t[:-1]
        out.append(" ".join(t) + (" \n" if fmt == "hex" else "  \n"))
    return "".join(out).encode()


def parse(raw, n, dt):
    """Rows as their writer meant them: None for a row that is missing, ValueError where a value is not a number."""
    L = raw.decode("utf-8", "strict").splitlines(keepends=True) if raw else []
    out = []
    for i in range(n):
        if i >= len(L):
            out.append(None)
        else:
            out.append([dt(float.fromhex(x)) for x in L[i].split(" ") if x.strip()])
    return out


def oracle(a, b, n, dt):
    """(equal, largest difference, largest relative difference), or None where a file is unreadable as numbers."""
    try:
        with np.errstate(all="ignore"):
            A, B = parse(a, n, dt), parse(b, n, dt)
    except (ValueError, OverflowError):
        return None
    eq, md, mr = True, 0.0, 0.0
    with np.errstate(all="ignore"):
        for x, y in zip(A, B):
            if not x or not y or len(x) != len(y):
                return False, math.inf, math.inf
        for x, y in zip(A, B):
            for u, v in zip(map(float, x), map(float, y)):
                if u == v:
                    continue
                d = abs(u - v)
                if not math.isfinite(d):
                    return False, math.inf, math.inf
                s = (abs(u) + abs(v)) / 2
                md, mr = max(md, d), max(mr, d / s if s else 0.0)
                eq = eq and (d <= 1e-12 * s or d < 2.2e-308)
    return eq, md, mr


def near(a, b, prec):
    """Both are reported in the precision of the files."""
    if math.isinf(a) or math.isinf(b):
        return a == b
    if math.isnan(b):
        return True
    return abs(a - b) <= (1e-5 if prec != "double" else 1e-12) * max(abs(a), abs(b)) + (1e-44 if prec != "double" else 1e-322)


def execute(c, d):
    home = d / "in"
    home.mkdir()
    A, B = values(c)
    raw = [write(A, c["fmt"][0], False), write(B, c["fmt"][1], c["kind"] == "cols")]
    f = [home / "ref.txt", home / "c.txt"]
    n = max(0, c["rows"] + c["ask"])
    prec = c["prec"] or "float"
    dt = np.float64 if prec == "double" else np.float32
    for p, b in zip(f, raw):
        p.write_bytes(b)
    got = {}

    def run():
        argv = sys.argv
        sys.argv = ["acetone_compare", *map(str, f), str(n)] + (["--precision", c["prec"]] if c["prec"] else [])
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
                compare.acetone_compare()
        finally:
            sys.argv = argv
        got["out"] = out.getvalue()

    def after(o):
        """What it printed, and what the library call says about the same files."""
        if o["raised"]:
            return {"out": got.get("out")}
        with np.errstate(all="ignore"):
            return {"out": got["out"], "lib": bool(compare.compare_files(str(f[0]), str(f[1]), n, prec)[0])}

    viol, trace = [], []
    st = {"comparisons": 0, "damaged": {}, "read_faults": {}, "refused": 0, "reported_equal": 0, "reported_different": 0}
    touched = c["kind"] != "same"
    log0 = None
    for h in c["history"]:
        now = list(raw)
        faults = ()
        if h[0] == "damage":
            for j, dmg in h[1]:
                b = damage.apply(raw[j], dmg) if raw[j] else None
                if b is not None:
                    now[j] = b
                    st["damaged"][dmg[0]] = st["damaged"].get(dmg[0], 0) + 1
                    touched = True
        elif h[0] == "read" and log0 is not None:
            faults = damage.place_reads(h[1], log0)
        for p, b in zip(f, now):
            p.write_bytes(b)
        got.clear()
        r = damage.reading(run, home, faults, after)
        log0 = log0 if log0 is not None else r["log"]
        st["comparisons"] += 1
        bad = damage.hard(r)
        for x in r["log"]:
            w = x.split()
            if w[-1] in ("error", "short", "eintr"):
                touched = True
                st["read_faults"][f"{w[1]} {w[-1]}"] = st["read_faults"].get(f"{w[1]} {w[-1]}", 0) + 1
        want = oracle(now[0], now[1], n, dt)
        what = f"{h} n={n}"
        if r["raised"]:
            st["refused"] += 1
            trace.append([h[0], r["raised"]])
            if want is not None and not bad and not (want[1] == math.inf):
                viol.append(["REFUSED", f"{what}: fails with {r['raised']} ({r.get('text')}) although both files are complete and readable"])
            continue
        a = r["after"]
        if isinstance(a, str):
            viol.append(["STUCK", f"{what}: the library call fails where the command succeeded: {a}"])
            continue
        m = re.findall(r"Max (?:absolute|relative) error for (\d+) test\(s\): (\S+)", a["out"])
        rep = [float(x[1]) for x in m]
        trace.append([h[0], rep, a["lib"]])
        if len(rep) != 2 or any(int(x[0]) != n for x in m):
            viol.append(["REPORT", f"{what}: not a report of {n} tests: {a['out']!r}"])
            continue
        if bad:
            viol.append(["SILENT", f"{what}: reports {rep} although reading failed"])
            continue
        if want is None:
            if rep != [math.inf, math.inf] or a["lib"]:
                viol.append(["SILENT", f"{what}: reports {rep} for a file that does not hold numbers"])
            continue
        if a["lib"] != want[0] or not near(rep[0], want[1], prec) or not near(rep[1], want[2], prec):
            viol.append(["WRONG", f"{what}: reports equal={a['lib']}, errors {rep}; they are equal={want[0]}, errors {list(want[1:])}"])
        st["reported_equal" if a["lib"] else "reported_different"] += 1
    return {"viol": viol[:4], "stats": st, "traces": [digest(trace)], "nontrivial": bool(touched), "sig": digest([c]), "sample": {"outcomes": trace[:5]}}


def shrink(c):
    h = c["history"]
    if len(h) > 1:
        for i in range(len(h)):
            yield {**c, "history": [h[i]]}
        for i in range(len(h)):
            yield {**c, "history": h[:i] + h[i + 1:]}
    if c["rows"] > 1:
        yield {**c, "rows": c["rows"] // 2}
    if c["cols"] > 1:
        yield {**c, "cols": 1}
    for k, v in (("ask", 0), ("kind", "same"), ("scale", 1.0), ("prec", None)):
        if c[k] != v:
            yield {**c, k: v}
