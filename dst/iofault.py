"""Python side of csim/iofault.c: attempts at an operation, each in a forked child with faults armed on one directory tree."""

from __future__ import annotations

import ctypes
import errno
import json
import os
import resource
import subprocess
import tempfile

from pathlib import Path

HERE = Path(__file__).resolve().parent / "csim"

KIND = {"err": 1, "short": 2, "before": 3, "mid": 4, "after": 5, "sticky": 6}
_lib = None


def compile_preload():
    """Called before the check's interpreter is started."""
    d = tempfile.mkdtemp(prefix="dst-io-")
    so = f"{d}/iofault.so"
    subprocess.run(["gcc", "-shared", "-fPIC", "-O2", "-w", "-U_FORTIFY_SOURCE", str(HERE / "iofault.c"), "-o", so, "-ldl"], check=True)
    return so


def loaded():
    """In the check's interpreter: the file is mapped and no longer needed, nor are children to load it."""
    so = os.environ.pop("LD_PRELOAD", None)
    if so and "dst-io-" in so:
        os.unlink(so)
        os.rmdir(os.path.dirname(so))


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.dst_log.restype = ctypes.c_char_p
        _lib.dst_count.restype = ctypes.c_long
        _lib.dst_fired.restype = ctypes.c_long
    return _lib


def arm(root, faults, reads=False):
    n = len(faults)
    lib().dst_reads(int(reads))
    lib().dst_arm(str(root).encode(), n, (ctypes.c_long * n)(*[f["at"] for f in faults]),
                  (ctypes.c_int * n)(*[KIND[f["kind"]] for f in faults]),
                  (ctypes.c_int * n)(*[getattr(errno, f["err"]) if f.get("err") else 0 for f in faults]))


def attempt(fn, root, faults=(), after=None, fsize=None, reads=False):
    """Run fn() in a child; after(result) runs there too, with faults off, unless the child died.

    Returns {"crashed": bool, "raised": name or None, "log": [...], "fired": n, "after": ...}.
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 71
        try:
            out = {"raised": None}
            arm(root, list(faults), reads)
            if fsize is not None:
                old = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, old[1]))
            try:
                fn()
            except SystemExit as e:
                out["raised"] = f"exit {e.code}" if e.code else None
            except Exception as e:  # noqa: BLE001
                out["raised"], out["text"] = type(e).__name__, str(e)[:200]
                del e
            if fsize is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
            lib().dst_disarm()
            out["log"] = lib().dst_log().decode("latin1").splitlines()
            out["fired"] = sum(lib().dst_fired(i) for i in range(len(faults)))
            if after:
                try:
                    out["after"] = after(out)
                except Exception as e:  # noqa: BLE001
                    out["after"] = f"raised {type(e).__name__}: {str(e)[:150]}"
            with os.fdopen(w, "w") as f:
                json.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    c = os.waitstatus_to_exitcode(st)
    if c == 77:
        return {"crashed": True, "raised": None, "log": [], "fired": 1, "after": None}
    if c:
        raise RuntimeError(f"attempt ended with status {c}")
    return {"crashed": False, **json.loads(data)}


def here(fn, root, faults=(), after=None, reads=False):
    """Like attempt, in this process: for faults that do not end it."""
    out = {"crashed": False, "raised": None, "after": None}
    arm(root, list(faults), reads)
    try:
        fn()
    except SystemExit as e:
        out["raised"] = f"exit {e.code}" if e.code else None
    except Exception as e:  # noqa: BLE001
        out["raised"], out["text"] = type(e).__name__, str(e)[:200]
    finally:
        lib().dst_disarm()
    out["log"] = lib().dst_log().decode("latin1").splitlines()
    out["fired"] = sum(lib().dst_fired(i) for i in range(len(faults)))
    if after:
        try:
            out["after"] = after(out)
        except Exception as e:  # noqa: BLE001
            out["after"] = f"raised {type(e).__name__}: {str(e)[:150]}"
    return out
