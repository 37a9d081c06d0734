"""C14: the tests that a program holds are those it was given, or generation is refused."""

from __future__ import annotations

import ctypes
import json
import shutil
import subprocess

import numpy as np

from dst import damage, net
from dst.common import Skip, digest

ID = "C14"
LEVEL = "exploration"
QUICK, THOROUGH = 500, 12000
RULE = ("a case is a model, a dataset in one of the accepted forms (array of any shape, layout and type, text file in hexadecimal or decimal, none) "
        "and a history of generations and evaluations with the dataset intact, cut, zeroed, torn, of the wrong width, or read with errors and "
        "short reads; non-trivial when a dataset was given; distinct by model, dataset form and history")
REAL = ["CodeGenerator, its evaluation, Python reading files", "gcc compiling the dataset that was generated"]
STUB = ["system calls that open and read the dataset file (fault injection in front of the real ones)"]
ASSUMPTIONS = ["values are finite and within the range of the model's data type", "text files hold numbers in the notation the generator is set to"]
TRACE_MEASURE = "hash of the outcomes of the steps and their read operations"
FORMS = ["file", "file", "file", "file", "array", "array", "none", "drawn"]
LAYOUTS = ["n1s", "ns", "nat", "fortran", "stride", "swapped", "f64", "f16", "int"]


def case(rng, i, tier):
    c = net.sample_subject(rng, onnx_p=0.6, bin_p=0.0, n4=rng.choice([0, 1, 2]), n2=rng.choice([0, 1, 2]))
    c["bin"] = rng.random() < 0.4 and "fmt" not in c["recipe"]
    c["hex"] = rng.random() < 0.7
    c["form"] = rng.choice(FORMS)
    c["n"] = rng.choice([1, 2, 3, 5, 33])
    c["extra"] = rng.choice([0, 0, 1, 4])
    c["layout"] = rng.choice(LAYOUTS)
    c["scale"] = rng.choice([1, 1, 1, 1, 1e-30, 1e-40, 1e4])
    c["text"] = {"sep": rng.choice([", ", ",", " ,\t"]), "eol": rng.choice(["\n", "\n", "\r\n"]), "last": rng.random() < 0.6, "pad": rng.choice(["", "", " "]),
                 "as": rng.choice(["path", "str"])}
    h = [["ok"]]
    for _ in range(rng.randint(3, 8)):
        k = rng.choice(["damage", "damage", "read", "read", "ok", "width", "infer", "infer"])
        if k == "damage":
            h.append([k, damage.sample_damage(rng, ["cut", "cut", "cutline", "zero", "stale", "drop"])])
        elif k == "read":
            h.append([k, damage.sample_reads(rng)])
        elif k == "width":
            h.append([k, rng.choice([-1, 1, 2]), rng.choice([0, 1]), rng.choice([0.0, 0.5, 0.999])])
        else:
            h.append([k])
    c["history"] = h
    return c


def arrange(c, X, shape):
    """The dataset as an array the caller may well have."""
    n, size = len(X), X.shape[-1]
    k = c["layout"]
    if k == "ns":
        return X.reshape(n, size)
    if k == "nat":
        return X.reshape(n, *shape)
    if k == "fortran":
        return np.asfortranarray(X.reshape(n, *shape))
    if k == "stride":
        b = np.full((2 * n, 1, 2 * size), 9, X.dtype)
        b[::2, :, ::2] = X
        return b[::2, :, ::2]
    if k == "swapped":
        return X.astype(X.dtype.newbyteorder())
    if k == "f64":
        return X.astype(np.float64)
    if k == "f16":
        return X.astype(np.float16)
    if k == "int":
        return np.round(X * 100).astype(np.int32)
    return X


def text(c, X, extra):
    t = c["text"]
    one = (lambda v: '"' + float(v).hex() + '"') if c["hex"] else (lambda v: repr(float(v)))
    L = [t["pad"] + "[" + t["sep"].join(one(v) for v in row.ravel()) + "]" for row in [*X, *extra]]
    return (t["eol"].join(L) + (t["eol"] if t["last"] else "")).encode()


GLUE = """#include "test_dataset.h"
extern const unsigned long sim_dims[];
const unsigned long sim_dims[] = { nb_samples, nn_input_size, sizeof(nn_test_inputs[0][0]), sizeof nn_test_inputs };
void *sim_inputs(void) { return (void *)nn_test_inputs; }
"""


def embedded(d):
    """The tests as the compiled program holds them: (bytes, number, inputs of each, size of one)."""
    (d / "glue.c").write_text(GLUE)
    r = net.make(d, "test_dataset.o")
    if r.returncode:
        return f"does not compile: {(r.stderr or r.stdout)[-200:]}"
    r = subprocess.run(["gcc", "-w", "-shared", "-fPIC", "-I.", "-o", "data.so", "glue.c", "test_dataset.o", "-Wl,-z,notext"], cwd=d, capture_output=True, text=True,
                       check=False)
    if r.returncode:
        return f"does not link: {r.stderr[-200:]}"
    lib = ctypes.CDLL(str(d / "data.so"))
    dims = (ctypes.c_ulong * 4).in_dll(lib, "sim_dims")
    lib.sim_inputs.restype = ctypes.c_void_p
    return ctypes.string_at(lib.sim_inputs(), dims[3]), dims[0], dims[1], dims[2]


def execute(c, d):
    home = d / "in"
    home.mkdir()
    s = net.subject(c, d)
    n = c["n"]
    X = (s.inputs(c, n) * c["scale"]).astype(s.dtype)
    extra = (s.inputs({**c, "xseed": c["xseed"] ^ 5}, c["extra"]) if c["extra"] else X[:0])
    shape = (c["recipe"].get("input") or [s.n_in])
    if int(np.prod(shape)) != s.n_in:
        shape = [s.n_in]
    file = home / "data.txt"
    form = c["form"]
    given, raw, count = None, None, n
    if form == "file":
        raw = text(c, X, extra)
        file.write_bytes(raw)
        given = file if c["text"]["as"] == "path" else str(file)
        want = X.astype(s.dtype)
    elif form == "array":
        if c["scale"] != 1 and c["layout"] in ("f16", "int"):
            raise Skip("values outside this type")
        given = arrange(c, X, shape)
        want = given.astype(s.dtype)
        count = n + (c["extra"] if c["extra"] % 2 else 0)  # the array decides
    else:
        want = None
    k = [0]
    step = {"X": given}

    def act(kind, out):
        g = net.generator(c, s.src, None, n=count, test_dataset=step["X"], to_hex=c["hex"], makefile_properties=SIMPLE, **s.kw)
        if form == "drawn":
            g.generate_dataset()
        if form in ("none", "drawn"):
            (d / "drawn.npy").unlink(missing_ok=True)
            np.save(d / "drawn.npy", np.asarray(g.test_dataset))
        if kind == "infer":
            out.mkdir()
            g.compute_inference(str(out))
        else:
            g.generate_c_files(out)

    def once(kind, faults=()):
        k[0] += 1
        out = d / f"o{k[0]}"

        def run():
            with net.quiet():
                act(kind, out)
        return damage.reading(run, home, faults), out

    r0, out0 = once("gen")
    if r0["raised"]:
        if form in ("file", "array") and not net_ok(c, s):
            raise Skip("not generated")
        if form in ("none", "drawn"):
            raise Skip(f"not generated: {r0['raised']}")
        return {"viol": [["REFUSED", f"a correct dataset ({form}, {c['layout'] if form == 'array' else c['text']}) is refused: {r0['raised']}: {r0.get('text')}"]]}
    log0 = r0["log"]
    rows0 = None
    viol, trace = [], []
    st = {"steps": 0, "damaged": {}, "refused": 0, "read_faults": {}, "forms": {form + (":" + c["layout"] if form == "array" else ""): 1}}
    touched = 0
    for h in c["history"]:
        step["X"] = given
        faults, may = (), False
        kind = "gen"
        if h[0] == "damage":
            b = damage.apply(raw, h[1]) if form == "file" else None
            if b is None or (h[1][0] == "drop" and not one_line(raw, h[1])):
                continue
            file.write_bytes(b)
            may = True
            st["damaged"][h[1][0]] = st["damaged"].get(h[1][0], 0) + 1
            touched += 1
        elif h[0] == "read":
            if form != "file":
                continue
            faults = damage.place_reads(h[1], log0)
        elif h[0] == "width":
            size = s.n_in + h[1]
            if form not in ("file", "array") or size < 1:
                continue
            Y = np.resize(X, (n, 1, size))
            if form == "array":
                step["X"] = Y
            else:
                L = text(c, Y, []).splitlines(keepends=True) if h[2] else text(c, X, extra).splitlines(keepends=True)
                j = int(h[3] * n)
                L[j] = text(c, Y[j:j + 1], []).rstrip(b"\r\n") + b"\n"
                file.write_bytes(b"".join(L))
            st["damaged"]["width"] = st["damaged"].get("width", 0) + 1
            touched += 1
        elif h[0] == "infer":
            kind = "infer"
        r, out = once(kind, faults)
        if raw is not None:
            file.write_bytes(raw)
        st["steps"] += 1
        bad = damage.hard(r)
        for x in r["log"]:
            w = x.split()
            if w[-1] in ("error", "short", "eintr"):
                touched += 1
                st["read_faults"][f"{w[1]} {w[-1]}"] = st["read_faults"].get(f"{w[1]} {w[-1]}", 0) + 1
        trace.append([h[0], r["raised"], len(r["log"]), bad])
        what = f"{h[0]} {h[1:]}" + (f" of {len(raw)} bytes" if raw else "")
        if r["raised"]:
            st["refused"] += 1
            if kind == "infer":
                continue  # not every layer can be evaluated
            if h[0] == "width" or may or bad:
                continue
            viol.append(["REFUSED", f"{what}: refused ({r['raised']}: {r.get('text')}) although nothing failed for good"])
            continue
        if h[0] == "width":
            viol.append(["SILENT", f"{what}: tests with {s.n_in + h[1]} instead of {s.n_in} values are accepted"])
            continue
        if want is None:
            D = np.load(d / "drawn.npy")
            exp, m = D.astype(s.dtype), count
            if D.shape[0] != count:
                viol.append(["COUNT", f"{what}: {D.shape[0]} tests drawn instead of {count}"])
        else:
            exp, m = want, n
        if kind == "infer":
            rows = (out / "output_python.txt").read_text()
            if len(rows.splitlines()) != m:
                viol.append(["COUNT", f"evaluation: {len(rows.splitlines())} results for {m} tests"])
            if form != "drawn":
                if rows0 is not None and rows != rows0:
                    viol.append(["WRONG", "evaluation of the same dataset gives other results"])
                rows0 = rows
            shutil.rmtree(out)
            continue
        e = embedded(out)
        shutil.rmtree(out)
        if isinstance(e, str):
            viol.append(["BUILD", f"{what}: {e}"])
            continue
        b, rows_, width, elt = e
        if (rows_, width, elt) != (m, s.n_in, np.dtype(s.dtype).itemsize):
            viol.append(["COUNT", f"{what}: {rows_} tests of {width} values of {elt} bytes instead of {m} of {s.n_in}"])
        elif b != exp.reshape(m, -1).tobytes(order="C"):
            got = np.frombuffer(b, s.dtype).reshape(m, -1)
            j = int(np.argmax((got != exp.reshape(m, -1)).any(axis=1)))
            viol.append(["SILENT", f"{what}: the generated program holds other values than the dataset, first in test {j}"])
    return {"viol": viol[:4], "stats": st, "traces": [digest(trace)], "nontrivial": form != "none" or touched > 0,
            "sig": digest([c["recipe"], form, c["layout"], c["text"], c["hex"], c["bin"], c["history"]]), "sample": {"form": form, "outcomes": trace[:6]}}


SIMPLE = {"compiler_flags": ["-w", "-fPIC"]}


def one_line(raw, dmg):
    """Whether the piece that is lost lies within one line and holds a separator: then the line lacks values."""
    a = int(dmg[1] * (len(raw) - dmg[2]))
    p = raw[a:a + dmg[2]]
    return b"\n" not in p and b"," in p


def net_ok(c, s):
    try:
        with net.quiet():
            net.generator(c, s.src, None, n=1, **s.kw)
    except Exception:  # noqa: BLE001
        return False
    return True


def shrink(c):
    h = c["history"]
    if len(h) > 1:
        for i in range(len(h)):
            yield {**c, "history": [h[i]]}
        for i in range(len(h)):
            yield {**c, "history": h[:i] + h[i + 1:]}
    if c["n"] > 1:
        yield {**c, "n": 1}
    if c["extra"]:
        yield {**c, "extra": 0}
    if c["scale"] != 1:
        yield {**c, "scale": 1}
    yield from (x for x in net.shrink_net(c))
