"""Development: how the checks react to small random changes of the sources (mutants).

python tools/mutate.py OUTDIR COUNT SEED [WORKERS] [FILE-SUBSTRING ...]: each mutant is a copy of /repo with one change; the checks run on it
(DST_REPO) until one does not pass. OUTDIR/results.jsonl gets one line per mutant.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
SRC = Path("/repo/src/acetone_nnet")
SKIP = ("orin-single", "gemm_t", "gemm_nt", "indirect", "gemm_target", "exporters/", "H5_importer", "JSON_from_keras", "lstm", "Conv2DGemmTarget", "_version", "templates/__init__")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "//"}


def sites(text):
    """Yields (start, end, replacement, what) over the text."""
    tree = ast.parse(text)
    off = [0]
    for line in text.splitlines(keepends=True):
        off.append(off[-1] + len(line.encode()))
    raw = text.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)  # noqa: E731
    seg = lambda n: raw[pos(n)[0]:pos(n)[1]].decode()  # noqa: E731
    for p in ast.walk(tree):
        for c in ast.iter_child_nodes(p):
            c.parent = p
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            n.returns.skip = True
    for n in ast.walk(tree):
        q = n
        while q is not None and not isinstance(q, (ast.arg, ast.Raise, ast.AnnAssign)) and not getattr(q, "skip", False):
            q = getattr(q, "parent", None)
        if q is not None:
            continue
        g = n  # guards that only raise or warn are not the business of the checks
        while g is not None and not (isinstance(g, ast.If) and not g.orelse and all(
                isinstance(x, ast.Raise) or (isinstance(x, ast.Assign) and seg(x.targets[0]) == "msg") or re.match(r"(logging|warnings|msg)", seg(x)) for x in g.body)):
            g = getattr(g, "parent", None)
        if g is not None:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = pos(n)
            yield a, b, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "cmp"
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
            a, b = pos(n)
            yield a, b, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})", "bin"
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n)
            yield a, b, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(f"({seg(v)})" for v in n.values) + ")", "bool"
            yield a, b, seg(n.values[0]), "bool-first"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = pos(n)
            yield a, b, f"({seg(n.operand)})", "not"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a, b = pos(n)
            yield a, b, f"({seg(n.operand)})", "neg"
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield *pos(n), str(not n.value), "flag"
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            yield *pos(n), repr(n.value + 1), "const"
            if n.value:
                yield *pos(n), "0", "zero"
        elif isinstance(n, (ast.If, ast.While)):
            a, b = pos(n.test)
            yield a, b, "True", "true"
            yield a, b, "False", "false"
        elif isinstance(n, ast.IfExp):
            a, b = pos(n)
            yield a, b, f"({seg(n.body)})", "then"
            yield a, b, f"({seg(n.orelse)})", "else"
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not re.match(r"(logging|super|print|warnings)\b", seg(n)):
            yield *pos(n), "pass", "del-call"
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, (ast.Subscript, ast.Attribute)) or isinstance(n, ast.AugAssign):
                yield *pos(n), "pass", "del-assign"
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
            a, b = pos(n.args[0])[0], pos(n.args[1])[1]
            yield a, b, f"{seg(n.args[1])}, {seg(n.args[0])}", "swap-args"
        elif isinstance(n, ast.Call) and n.keywords and n.keywords[-1].arg:
            k = n.keywords[-1]
            a, b = off[k.lineno - 1] + k.col_offset, off[k.end_lineno - 1] + k.end_col_offset
            yield a, b, "", "del-kw"


def template_sites(text):
    """The same over a template of C code."""
    off = 0
    for line in text.splitlines(keepends=True):
        b = len(line.rstrip().encode())
        ind = len(line) - len(line.lstrip())
        if "{{#" not in line and "{{/" not in line and "//" not in line and "#include" not in line:
            for m in re.finditer(r"<=|>=|==|!=|(?<![-<>=])[<>](?![<>=])", line):
                new = {"<=": "<", ">=": ">", "==": "!=", "!=": "==", "<": "<=", ">": ">="}[m[0]]
                yield off + m.start(), off + m.end(), new, "cmp"
            for m in re.finditer(r" ([-+*/%]) ", line):
                yield off + m.start(1), off + m.end(1), {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/"}[m[1]], "bin"
            for m in re.finditer(r"(?<![\w.])\d+(?![\w.])", line):
                yield off + m.start(), off + m.end(), str(int(m[0]) + 1), "const"
            v = list(re.finditer(r"\{\{\w+\}\}", line))
            for a in v:
                for b2 in v:
                    if a[0] != b2[0]:
                        yield off + a.start(), off + a.end(), b2[0], "var"
            if line.rstrip().endswith(";") and not re.match(r"\s*(\w+ )+\*?\w+( = .*)?;", line) and "for" not in line:
                yield off + ind, off + b, ";", "del"
        off += len(line.encode())


def main():
    out, count, seed = Path(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    workers = int(sys.argv[4]) if len(sys.argv) > 4 else 3
    only = sys.argv[5:]
    out.mkdir(parents=True, exist_ok=True)
    rng = random.Random(seed)
    pool = []
    for f in sorted([*SRC.rglob("*.tpl")] if "TEMPLATES" in os.environ else SRC.rglob("*.py")):
        rel = str(f.relative_to(SRC))
        if any(s in rel for s in SKIP) or (only and not any(s in rel for s in only)):
            continue
        t = f.read_text()
        s = [x for x in (sites if f.suffix == ".py" else template_sites)(t) if t.encode()[x[0]:x[1]].decode() != x[2]]
        if s:
            pool.append((rel, t, s))
    total = sum(len(s) for _, _, s in pool)
    print(len(pool), "files", total, "sites")
    jobs = []
    while len(jobs) < count:
        rel, t, s = rng.choices(pool, [len(x[2]) ** 0.7 for x in pool])[0]
        a, b, new, what = rng.choice(s)
        r = t.encode()
        m = (r[:a] + new.encode() + r[b:]).decode()
        try:
            if rel.endswith(".py"):
                ast.parse(m)
        except SyntaxError:
            continue
        jobs.append((rel, t, m, what, t.encode()[:a].count(b"\n") + 1))
    every = "C04,C17,C05,C16,C14,C13,C15,C11,C09,C12,C06,C03,C02,C01,C10,C08,C07"
    near = "C04,C05,C17,C16,C03,C06"
    lock = threading.Lock()
    it = iter(enumerate(jobs))

    def work(w):
        home = out / f"w{w}"
        shutil.rmtree(home, ignore_errors=True)
        shutil.copytree("/repo", home / "repo", ignore=shutil.ignore_patterns(".git", "tutorials", "__pycache__", "models"))
        while True:
            with lock:
                j = next(it, None)
            if j is None:
                break
            i, (rel, t, m, what, line) = j
            f = home / "repo/src/acetone_nnet" / rel
            f.write_text(m)
            env = dict(os.environ, DST_REPO=str(home / "repo"), DST_FAST=str(out / "replays"), VERIF_SEED="1", VERIF_TIER="quick", VERIF_JOBS=str(max(2, 9 // workers)),
                       PYTHONDONTWRITEBYTECODE="1")
            try:
                p = subprocess.run(["/opt/venv/bin/python", "-m", "dst", os.environ.get("CHECKS") or ("C04,C03,C06,C12,C11,C02,C01,C16,C17" if rel.endswith(".tpl") else near if re.match("generator/layers|importers/[OP]|pattern_matching|generator/act", rel) else every)], cwd=VERIF, env=env, capture_output=True, text=True, timeout=1800, check=False)
                o, rc = p.stdout, p.returncode
                e = "" if rc != 2 else p.stderr[-600:]
            except subprocess.TimeoutExpired as x:
                o, rc, e = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else x.stdout or "", "timeout", ""
            f.write_text(t)
            import difflib
            d = [x for x in difflib.unified_diff(t.splitlines(), m.splitlines(), lineterm="", n=0)][2:]
            hit = re.findall(r"VIOLATION property=(\S+)", o)
            first = re.findall(r"^  (\w+: .*)", o, re.M)
            with lock, open(out / "results.jsonl", "a") as g:
                g.write(json.dumps({"i": i, "file": rel, "line": line, "what": what, "diff": d, "rc": rc, "by": hit[0] if hit else None, "why": first[0][:200] if first else "",
                                    "last": o.splitlines()[-1][:150] if o else "", "err": e}) + "\n")
    th = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    for x in th:
        x.start()
    for x in th:
        x.join()


main()
