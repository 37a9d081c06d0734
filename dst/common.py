"""Driver shared by every check: seeds, fresh-fork execution, replay, minimisation, evidence.

A check module provides

    ID, LEVEL, RULE, ASSUMPTIONS, REAL, STUB
    QUICK, THOROUGH          number of cases per tier
    def case(rng, i, tier)   -> JSON case (pure function of rng)
    def execute(case, dir)   -> dict(viol=[[kind, text]...], stats={}, sig=str, nontrivial=bool)
    def shrink(case)         -> iterator over smaller cases
    known(case, kind, text)  -> name of the known finding, or None   (optional)

Every case runs in a fresh fork of a parent that has imported everything and
run nothing, so its outcome does not depend on worker count or order.
"""

from __future__ import annotations

import hashlib
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("DST_REPO", "/repo"))  # another tree only while developing
sys.path.insert(0, f"{REPO}/src")
REPLAYS = VERIF / "replays"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CASE_TIMEOUT = 240
MEM_LIMIT = 6 << 30


def digest(obj) -> str:
    if not isinstance(obj, bytes):
        obj = json.dumps(obj, sort_keys=True, default=str).encode()
    return hashlib.sha256(obj).hexdigest()[:16]


def case_rng(seed: int, pid: str, i: int) -> random.Random:
    h = hashlib.sha256(f"{seed}/{pid}/{i}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


class Skip(Exception):
    """The case is outside the property's domain (counted, never silently)."""


# ------------------------------------------------------------------ fork execution
def _child(fn, arg, wfd, scratch, quiet):
    os.setsid()
    code = 0
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        if quiet:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        try:
            out = fn(arg, Path(scratch))
        except Skip as e:
            out = {"skip": str(e)}
        except BaseException as e:  # noqa: BLE001  harness error, never a verdict, unless the code under test is where it comes from
            t = traceback.extract_tb(e.__traceback__)
            if isinstance(e, Exception) and not isinstance(e, (OSError, MemoryError)) and "dst" not in Path(t[-1].filename).parts and any("acetone_nnet" in Path(f.filename).parts for f in t):
                out = {"viol": [["RAISED", f"{type(e).__name__}: {e} in {t[-1].name}, where nothing failed"]]}
            else:
                out = {"error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-3000:]}
        data = json.dumps(out, default=str).encode()
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
    except BaseException:  # noqa: BLE001
        code = 70
    finally:
        os._exit(code)


class Pool:
    """Runs fn(arg, scratch) in fresh forks, at most JOBS at a time."""

    def __init__(self, root, quiet=True):
        self.root, self.quiet, self.n = root, quiet, 0

    def map(self, fn, args, stop=None, deadline=None, jobs=None, timeout=CASE_TIMEOUT):
        """Yield (index, result) as cases end."""
        args = iter(enumerate(args))
        live = {}
        jobs = jobs or JOBS
        more = True
        while True:
            while more and len(live) < jobs:
                if (stop and stop()) or (deadline and time.monotonic() > deadline):
                    more = False
                    break
                try:
                    i, a = next(args)
                except StopIteration:
                    more = False
                    break
                r, w = os.pipe()
                self.n += 1
                sc = f"{self.root}/c{self.n}"
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    _child(fn, a, w, sc, self.quiet)
                os.close(w)
                live[r] = [pid, i, time.monotonic(), b"", sc]
            if not live:
                if not more:
                    return
                continue
            ready, _, _ = select.select(list(live), [], [], 1.0)
            now = time.monotonic()
            for r in list(live):
                pid, i, t0, buf, sc = live[r]
                res = None
                if r in ready:
                    d = os.read(r, 1 << 20)
                    if d:
                        live[r][3] += d
                        continue
                    _, st = os.waitpid(pid, 0)
                    try:
                        res = json.loads(live[r][3])
                    except ValueError:
                        res = {"error": f"case process died, status {st}"}
                elif now - t0 > timeout:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    os.waitpid(pid, 0)
                    res = {"error": f"case exceeded {timeout} s"}
                if res is not None:
                    os.close(r)
                    del live[r]
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except (ProcessLookupError, PermissionError):
                        pass
                    shutil.rmtree(sc, ignore_errors=True)
                    yield i, res

    def one(self, fn, arg, timeout=CASE_TIMEOUT):
        for _, r in self.map(fn, [arg], jobs=1, timeout=timeout):
            return r


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    out = {}
    p = VERIF / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("{"):
                o = json.loads(line)
                if o.get("property") == pid and o.get("status") == "known":
                    out[o["key"]] = o
    return out


# ------------------------------------------------------------------ driver
def scratch_root():
    base = os.environ.get("TMPDIR", "/tmp")
    return tempfile.mkdtemp(prefix="dst-", dir=base)


def kinds(res):
    return {k for k, _ in res.get("viol", [])}


def minimise(mod, pool, case, kind, budget_s):
    """Greedy: take the first smaller case that still shows the same kind of violation."""
    end = time.monotonic() + budget_s
    tried = 0
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        it = iter(mod.shrink(case))
        while time.monotonic() < end:
            batch = []
            for c in it:
                batch.append(c)
                if len(batch) >= JOBS:
                    break
            if not batch:
                break
            hits = {}
            for i, r in pool.map(mod.execute, batch, timeout=60):
                tried += 1
                if kind in kinds(r):
                    hits[i] = r
            if hits:
                case = batch[min(hits)]
                changed = True
                break
    return case, tried


def run_check(mod, tier, seed):
    t0 = time.monotonic()
    pid = mod.ID
    root = scratch_root()
    os.environ["DST_SCRATCH"] = root
    known = known_findings(pid)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL}
    stats, skips, errors = {}, {}, []
    sigs, inter = set(), set()
    evals = 0
    samples, found, kf = [], [], {}
    n = mod.QUICK if tier == "quick" else mod.THOROUGH
    if "DST_FAST" in os.environ:
        n = max(1, int(n * float(os.environ.get("DST_SCALE", "1"))))
    limit = 420 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "3000"))
    deadline = t0 + limit
    code = 0
    try:
        if hasattr(mod, "prepare"):
            mod.prepare(root, tier, seed)
        if "sample_subject" in Path(mod.__file__).read_text():
            from dst import formats
            formats.warm()
        fast = "DST_FAST" in os.environ  # development: only whether anything is found
        pool = Pool(root)
        cases = {}

        def gen():
            for i in range(n):
                c = mod.case(case_rng(seed, pid, i), i, tier)
                cases[i] = c
                yield c

        for i, r in pool.map(mod.execute, gen(), stop=lambda: len(found) >= (1 if fast else 3) or len(errors) >= 8,
                             deadline=deadline):
            c = cases.pop(i)
            evals += 1
            if "skip" in r:
                skips[r["skip"]] = skips.get(r["skip"], 0) + 1
                continue
            if "error" in r:
                errors.append((i, r, c))
                continue
            for k, v in r.get("stats", {}).items():
                if isinstance(v, (int, float)):
                    stats[k] = max(stats.get(k, 0), v) if k.startswith("max_") else stats.get(k, 0) + v
                elif isinstance(v, dict):
                    d = stats.setdefault(k, {})
                    for kk, vv in v.items():
                        d[kk] = d.get(kk, 0) + vv
            if r.get("nontrivial", True):
                sigs.add(r.get("sig") or digest(c))
            inter.update(r.get("traces", []))
            if len(samples) < 3:
                samples.append({"index": i, "case": c, "outcome": r.get("sample")})
            real = []
            for k, t in r.get("viol", []):
                name = mod.known(c, k, t) if hasattr(mod, "known") else None
                if name in known:
                    kf[name] = kf.get(name, 0) + 1
                else:
                    real.append([k, t])
            if real:
                found.append((i, c, real))
        for name, o in known.items():
            demo = o.get("demo")
            if demo is not None and name not in kf:
                r = pool.one(mod.execute, demo)
                if any(mod.known(demo, k, t) == name for k, t in r.get("viol", [])):
                    kf[name] = 1
        for name in kf:
            print(f"KNOWN-FINDING: property={pid} {known[name]['what']}", flush=True)
        if found:
            code = 1
            found.sort(key=lambda x: x[0])
            i, c, real = found[0]
            kind = real[0][0]
            small, tried = minimise(mod, pool, c, kind, 0 if fast else 60 if tier == "quick" else 300)
            r1 = pool.one(mod.execute, small)
            r2 = pool.one(mod.execute, small)
            same = r1.get("viol") == r2.get("viol") and kind in kinds(r1)
            where = Path(os.environ["DST_FAST"]) if fast else REPLAYS
            where.mkdir(exist_ok=True)
            path = where / f"{pid}-{digest(small)}.json"
            path.write_text(json.dumps({
                "property": pid, "verif_seed": seed, "index": i, "kind": kind,
                "violation": r1.get("viol") or real, "reproduced": same, "minimiser_runs": tried,
                "case": small, "original_case": c}, indent=1))
            for k, t in (r1.get("viol") or real)[:4]:
                print(f"  {k}: {t}"[:600])
            print(f"  (seed {seed}, run {i}, minimised in {tried} runs, replays exactly: {same})")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        for i, r, c in errors[:3]:
            print(f"ERROR run {i}: {r['error']}\n{r.get('tb', '')}\n{json.dumps(c)[:1500]}", file=sys.stderr)
        if errors and not found:
            code = 2
        elif not found and not sigs:
            code = 2
            print("ERROR nothing was explored", skips, file=sys.stderr)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    wall = time.monotonic() - t0
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(sigs),
        "rule": mod.RULE,
        "samples": [json.loads(json.dumps(s, default=str)) for s in samples],
        "simulated_runs_per_hour": int(evals / wall * 3600) if wall else 0,
        "skipped_outside_domain": skips,
        "harness_errors": len(errors),
        "components_real": mod.REAL,
        "components_stubbed": mod.STUB,
        "counters": stats,
    }
    if inter:
        cov["distinct_interleavings"] = len(inter)
        cov["interleaving_measure"] = getattr(mod, "TRACE_MEASURE", "hash of the sequence of (step, thread switched to)")
    if kf:
        cov["known_findings_seen"] = kf
    ev.update(coverage=cov, assumptions=mod.ASSUMPTIONS, wall_s=round(wall, 1), violations=len(found))
    if fast:
        print(f"{pid}: {evals} runs, {len(found)} violating, {len(errors)} errors, {wall:.1f} s", flush=True)
        return code
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    print(f"{pid} {tier} seed={seed}: {evals} runs, {len(sigs)} distinct, {len(found)} violating, "
          f"{sum(skips.values())} outside the domain, {len(errors)} errors, {wall:.1f} s", flush=True)
    return code


def replay(mod, path):
    o = json.loads(Path(path).read_text())
    root = scratch_root()
    os.environ["DST_SCRATCH"] = root
    try:
        if hasattr(mod, "prepare"):
            mod.prepare(root, "replay", o["verif_seed"])
        r = Pool(root).one(mod.execute, o["case"])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    for k, t in r.get("viol", []):
        print(f"  {k}: {t}")
    if "error" in r:
        print(r["error"], r.get("tb"))
        return 2
    if r.get("viol"):
        print(f"VIOLATION property={mod.ID} replay={path}")
        print("identical to the recorded violation:", r["viol"] == o["violation"])
        return 1
    print("no violation")
    return 0
