"""What a crash, a full disk or a broken transfer leaves of a file, and the read faults of a process that reads it."""

from __future__ import annotations

from dst import iofault

ERRS = ["EIO", "EIO", "ENOMEM", "EISDIR", "ESTALE", "EINTR", "ENODEV"]
OPEN_ERRS = ["EACCES", "ENOENT", "EMFILE", "ENFILE", "ELOOP", "EIO"]


def sample_damage(rng, kinds):
    k = rng.choice(kinds)
    at = rng.choice([rng.random(), rng.random(), rng.random(), 0.0, 1.0])
    if k == "cut":
        return ["cut", at, rng.choice([0, 0, 0, 1, 2, 3])]  # the last value: drop that many more bytes
    if k == "cutline":
        return ["cutline", at, rng.choice([0, 0, 1])]
    if k == "zero":
        return ["zero", at, rng.choice([1, 2, 16, 64, 512, 4096])]
    if k in ("drop", "dup"):
        return [k, at, rng.choice([64, 65, 100, 512, 700])]
    if k == "dupline":
        return ["dupline", at, rng.choice([1, 1, 2, 5])]
    if k == "dropline":
        return ["dropline", at, rng.choice([1, 1, 2, 5])]
    return ["stale", at, rng.choice([0, 1])]


def apply(raw, dmg):
    """The damaged bytes, or None where this damage does not change the file or cannot be told from a good one."""
    k, at, q = dmg
    n = len(raw)
    if k == "cut":
        out = raw[:max(0, int(at * n) - q)]
    elif k == "cutline":
        ends = [i + 1 for i, b in enumerate(raw) if b == 10]
        if not ends:
            return None
        out = raw[:ends[min(len(ends) - 1, int(at * len(ends)))] - q]
    elif k == "zero":
        a = int(at * max(0, n - 1))
        a -= a % q if q >= 512 else 0
        out = raw[:a] + bytes(min(q, n - a)) + raw[a + q:]
    elif k in ("drop", "dup"):
        if n < q:
            return None
        a = int(at * (n - q))
        out = raw[:a] + raw[a + q:] if k == "drop" else raw[:a + q] + raw[a:]
    elif k in ("dupline", "dropline"):
        L = raw.splitlines(keepends=True)
        a = min(int(at * len(L)), len(L) - 1)
        out = b"".join(L[:a] + L[a + q:] if k == "dropline" else L[:a + q] + L[a:])
    else:  # an older, longer file of the same kind was overwritten in place
        t = raw[int(at * n):]
        out = raw + (t.lstrip() if q else t)
    return None if out == raw else out


def sample_reads(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(["err", "err", "short", "short", "open"])
        out.append({"kind": k, "frac": rng.choice([rng.random(), 0.0, 0.999]), "err": rng.choice(OPEN_ERRS if k == "open" else ERRS)})
    return out


def place_reads(reads, log):
    """Faults at chosen ones of the operations that a first, undisturbed run made."""
    opens = [i + 1 for i, x in enumerate(log) if x.split()[1] == "openr"]
    rds = [i + 1 for i, x in enumerate(log) if x.split()[1] == "read"]
    out = []
    for f in reads:
        at = opens if f["kind"] == "open" else rds
        if at:
            out.append({"at": at[int(f["frac"] * len(at))], "kind": "short" if f["kind"] == "short" else "err",
                        "err": None if f["kind"] == "short" else f["err"]})
    return out


def reading(fn, root, faults=(), after=None):
    return iofault.here(fn, root, faults, after, reads=True)


def hard(r):
    """Whether an operation failed for good (interrupted reads are repeated by Python)."""
    return any(x.endswith(" error") for x in r["log"])
