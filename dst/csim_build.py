"""Builds generated programs with the simulator and runs scripts on them."""

from __future__ import annotations

import os
import re
import subprocess
from pathlib import Path

import numpy as np

from dst.net import make

HERE = Path(__file__).resolve().parent / "csim"
SIMCC = str(HERE / "simcc")


def prepare(root):
    """Compile the simulator runtime once per check."""
    o = f"{root}/simrt.o"
    subprocess.run(["gcc", "-O2", "-g", "-w", "-fno-builtin-memcpy", "-c", str(HERE / "simrt.c"), "-o", o], check=True)
    os.environ["SIM_RT"] = o


SIM_PROPS = {"compiler": SIMCC, "compiler_flags": ["-g", "-w"], "linker_flags": ["-lm"]}


class BuildError(Exception):
    pass


def write_glue(d):
    """How the driver calls copy_weights: its parameters are named after the arrays they replace."""
    text = (Path(d) / "train_hook.c").read_text()
    m = re.search(r"\bcopy_weights\s*\(([^)]*)\)\s*\{(.*?)\n\}", text, re.S)
    names = []
    for arg in (re.findall(r"(\w+)\s*(?:,|$)", re.sub(r"\[[^\]]*\]", "", m[1]).strip()) if m else []):
        w = re.search(r"\(\s*(?:\([^)]*\)\s*)?&?(\w+)\s*,\s*(?:\([^)]*\)\s*)?%s\b" % re.escape(arg), m[2])
        if arg != "void":
            names.append(w[1] if w else arg.removeprefix("model_"))
    (Path(d) / "simglue.h").write_text(
        f"#define SIM_NPARS {len(names)}\n"
        f"static const size_t sim_par_size[] = {{{', '.join(f'sizeof({n})' for n in names) or '0'}}};\n"
        f"void copy_weights({', '.join('simT *' for _ in names) or 'void'});\n"
        f"static void sim_copy(void **p) {{ copy_weights({', '.join(f'p[{i}]' for i in range(len(names)))}); }}\n")
    return names


def stored(d, names, sizes):
    """The bytes of the named arrays in the object file of the parameters, and their positions."""
    sym = {}
    for line in subprocess.run(["nm", f"{d}/parameters.o"], capture_output=True, text=True, check=True).stdout.splitlines():
        x = line.split()
        if len(x) == 3:
            sym[x[2]] = int(x[0], 16)
    subprocess.run(["objcopy", "-O", "binary", f"{d}/parameters.o", f"{d}/sim_par.bin"], check=True)
    raw = (Path(d) / "sim_par.bin").read_bytes()
    return [sym.get(n) for n in names], [raw[sym[n]:sym[n] + s] if n in sym else None for n, s in zip(names, sizes)]


def build(d, opt="-O1", external=False, name="inference", glue=False):
    """Run the generated Makefile with the simulator as its compiler."""
    if glue:
        write_glue(d)
    r = make(d, name, env={"SIM_CFLAGS": opt, "SIM_DRVFLAGS": "-DSIM_EXTERNAL_INPUT=%d -DSIM_GLUE=%d" % (bool(external), bool(glue))})
    if r.returncode:
        raise BuildError((r.stderr or r.stdout)[-600:])
    return Path(d) / name


def context_fields(d):
    """[lo, hi) of every buffer in a context, from the debug information of the driver."""
    txt = subprocess.run(["readelf", "--debug-dump=info", f"{d}/simdrv.o"], capture_output=True, text=True, check=True).stdout
    dies, cur = {}, None
    stack = []
    for line in txt.splitlines():
        m = re.match(r"\s*<(\d+)><([0-9a-f]+)>: Abbrev Number: \d+ \((\w+)\)", line)
        if m:
            lvl, off, tag = int(m[1]), m[2], m[3]
            cur = {"tag": tag, "kids": []}
            dies[off] = cur
            del stack[lvl:]
            if stack:
                stack[-1]["kids"].append(cur)
            stack.append(cur)
            continue
        m = re.match(r"\s*<[0-9a-f]+>\s+(DW_AT_\w+)\s*:\s*(.*)", line)
        if m and cur is not None:
            v = m[2].strip()
            if v.startswith("(") and "):" in v:
                v = v.split("):", 1)[1].strip()
            cur[m[1]] = v

    def ref(x):
        return dies[x["DW_AT_type"].strip("<>").removeprefix("0x")]

    def size(x):
        if "DW_AT_byte_size" in x:
            return int(x["DW_AT_byte_size"], 0)
        if x["tag"] == "DW_TAG_array_type":
            n = 1
            for k in x["kids"]:
                if k["tag"] == "DW_TAG_subrange_type":
                    n *= int(k.get("DW_AT_upper_bound", "-1").split()[0], 0) + 1
            return n * size(ref(x))
        if x["tag"] == "DW_TAG_pointer_type":
            return 8
        return size(ref(x))

    out = []
    for x in dies.values():
        if x["tag"] == "DW_TAG_typedef" and x.get("DW_AT_name") == "inference_t":
            for k in ref(x)["kids"]:
                if k["tag"] == "DW_TAG_member":
                    o = int(k.get("DW_AT_data_member_location", "0").split()[0], 0)
                    out.append((o, o + size(ref(k))))
    return out


def parameter_gaps(d):
    """Padding between the parameter arrays of the text form of the parameters."""
    def syms(f):
        t = subprocess.run(["nm", "-S", f], capture_output=True, text=True, check=True).stdout
        return {w[3]: (int(w[0], 16), int(w[1], 16)) for w in (x.split() for x in t.splitlines()) if len(w) == 4 and w[2] in "RrDdBb"}

    if not os.path.exists(f"{d}/parameters.c"):
        return []
    names = set(syms(f"{d}/parameters.o"))
    s = sorted(v for k, v in syms(f"{d}/inference").items() if k in names)
    return [(a + n, b) for (a, n), (b, _) in zip(s, s[1:]) if 0 < b - a - n <= 65536]


def layout(d):
    return [f"FIELD {a} {b}" for a, b in context_fields(d)] + [f"GAP {a} {b}" for a, b in parameter_gaps(d)]


class Op:
    def __init__(self, cmd):
        self.cmd, self.rc, self.pred, self.file, self.io = cmd, None, None, None, None


class Result:
    def __init__(self):
        self.viol, self.ops, self.stats, self.info, self.end = [], [], {}, {}, False
        self.trace = None
        self.rc = None
        self.pars = []


def run(exe, script, dtype, d, timeout=180):
    sp, rp = Path(d) / "sim.script", Path(d) / "sim.result"
    sp.write_text("\n".join(script) + "\n")
    p = subprocess.run([str(exe), str(sp), str(rp)], capture_output=True, timeout=timeout, check=False,
                       cwd=str(d))
    out = Result()
    out.rc = p.returncode
    out.stderr = p.stderr[-400:].decode("latin1")
    if not rp.exists():
        raise RuntimeError(f"simulator produced nothing, exit {p.returncode}: {out.stderr}")
    cur = None
    for line in rp.read_text(errors="replace").splitlines():
        t, _, rest = line.partition(" ")
        if t == "O":
            cur = Op(rest.split(" ", 1)[1])
            out.ops.append(cur)
        elif t == "V":
            k, _, msg = rest.partition(" ")
            out.viol.append([k, f"{cur.cmd if cur else ''}: {msg}"])
        elif t == "P":
            cur.pred = np.frombuffer(bytes.fromhex(rest), dtype=dtype)
        elif t == "F":
            cur.file = bytes.fromhex(rest)
        elif t == "R":
            cur.rc = int(rest)
        elif t == "K":
            cur.io = [int(x) for x in rest.split()]  # errors, short transfers, opens, writes, closes, reads
        elif t == "N":
            out.pars = [int(x) for x in rest.split()]
        elif t == "I":
            out.info = {k: int(v) for k, v in (x.split("=") for x in rest.split())}
        elif t == "S":
            for x in rest.split():
                k, v = x.split("=")
                if k == "trace":
                    out.trace = v
                else:
                    out.stats[k] = int(v)
        elif t == "END":
            out.end = True
        elif t == "E":
            raise RuntimeError(f"simulator: {rest}")
    if not out.end and not out.viol:
        out.viol.append(["SIGNAL", f"program ended abruptly with status {p.returncode} {out.stderr[-200:]}"])
    return out


def sample_sched(rng):
    s = rng.choice(["rw", "rw", "rw", "pct", "pct", "rr", "serial", "stall", "hot", "hot"])
    prm = {"rw": rng.choice([2, 8, 40, 200, 1500]), "pct": rng.choice([1, 2, 3, 5]), "rr": rng.choice([1, 7, 50, 400]),
           "serial": 0, "stall": rng.choice([10, 100, 1000]), "hot": 0}[s]
    cap = rng.choice([0, 0, 0, 2, 3, 5, 17])
    return f"SCHED {s} {rng.randrange(1, 1 << 40)} {prm} {cap}"


def stats_of(r):
    s = {k: v for k, v in r.stats.items() if k not in ("maxteam", "ctxs")}
    s["max_team"] = r.stats.get("maxteam", 0)
    s["max_contexts_used"] = r.stats.get("ctxs", 0)
    return {("max_" + k[4:] if k.startswith("max_") else f"sim_{k}"): v for k, v in s.items()}
