"""Seeded scheduler for Python threads: exactly one runs, and a switch can happen before any line of acetone_nnet."""

from __future__ import annotations

import dis
import hashlib
import random
import sys
import threading

from dst.common import REPO

ROOT = f"{REPO}/src/acetone_nnet/"


def importing(f):
    """A thread that imports a module holds its import lock."""
    while f is not None:
        if f.f_code.co_name == "<module>" or f.f_code.co_filename.startswith("<frozen importlib"):
            return True
        f = f.f_back
    return False


def shared_objects():
    """Objects of acetone_nnet's classes that live as long as the process, by name."""
    out = {}

    def add(o, name, depth):
        if id(o) in out or isinstance(o, type):
            return
        if (type(o).__module__ or "").startswith("acetone_nnet"):
            out[id(o)] = name
            inner = getattr(o, "__dict__", {})
        elif isinstance(o, dict):
            inner = {k: v for k, v in o.items() if isinstance(k, str)}
        elif isinstance(o, (list, tuple)):
            inner = dict(enumerate(o))
        else:
            return
        if depth < 3:
            for k, v in list(inner.items()):
                add(v, f"{name}.{k}", depth + 1)

    for m in sorted(sys.modules):
        if m.startswith("acetone_nnet"):
            for k, v in sorted(vars(sys.modules[m]).items()):
                if not k.startswith("__"):
                    add(v, f"{m}.{k}", 0)
                    if isinstance(v, type):
                        for a, b in sorted(vars(v).items()):
                            if not a.startswith("__"):
                                add(b, f"{m}.{k}.{a}", 1)
    return out


def mutable(v):
    return isinstance(v, (dict, list, set, bytearray)) or (not isinstance(v, type) and (type(v).__module__ or "").startswith("acetone_nnet"))


def touches(code, names):
    """Does a function use state of its module, or of a class, that can change?"""
    if any(i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL") for i in dis.get_instructions(code)):
        return True
    for n in code.co_names:
        v = names.get(n)
        if mutable(v):
            return True
        if (isinstance(v, type) and v.__module__.startswith("acetone_nnet")) or getattr(v, "__name__", "").startswith("acetone_nnet"):
            if any(mutable(vars(v).get(a)) for a in code.co_names if a in vars(v)):
                return True
    return False


class Sched:
    def __init__(self, seed, mode, param, n):
        self.rng = random.Random(seed)
        self.mode, self.param, self.n = mode, param, n
        self.gate = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.steps = self.switches = 0
        self.h = hashlib.sha256()
        self.salt = seed if mode in ("spot", "file", "meet", "object", "global") else None
        self.spots = {}
        self.parked = {}
        self.touch = {}
        self.shared = shared_objects() if mode == "object" else {}
        self.left = self.next_left()
        self.where = [None] * n
        self.errors = [None] * n
        self.prio = list(range(n))
        self.rng.shuffle(self.prio)

    def next_left(self):
        m, p = self.mode, self.param
        if self.salt:
            return 0
        if m == "lock":       # every line
            return 1
        if m == "rand":
            return 1 + int(self.rng.expovariate(1 / p))
        if m == "few":        # rare switches
            return self.rng.randrange(1, p)
        return self.rng.choice([1, 1, 2, p])  # burst

    def pick(self, me):
        others = sorted(self.alive - {me})
        if not others:
            return me
        if self.mode == "lock":
            later = [t for t in others if t > me]
            return later[0] if later else others[0]
        return self.rng.choice(others)

    def hot(self, code):
        """Does this schedule concentrate on that function (or, half of the time, that file)?"""
        if code not in self.spots:
            key = code.co_filename if self.mode == "file" else f"{code.co_filename}:{code.co_qualname}"
            self.spots[code] = hashlib.sha256(f"{self.salt}{key.removeprefix(ROOT)}".encode()).digest()[0] < 256 * self.param
        return self.spots[code]

    def hot_object(self, o):
        name = self.shared.get(id(o))
        if name is None:
            return None
        if name not in self.spots:
            self.spots[name] = hashlib.sha256(f"{self.salt}{name}".encode()).digest()[0] < 256 * self.param
        return name if self.spots[name] else None

    def meet(self, me, key):
        """Wait in the middle of something until another thread is there as well; then go on in turns."""
        here = [t for t in sorted(self.parked) if self.parked[t] == key]
        free = sorted(self.alive - {me, *self.parked})
        if here:
            if self.rng.random() < 0.5:
                return
            t = self.rng.choice(here)
        elif free and self.rng.random() < 0.3:
            t = self.rng.choice(free)
        else:
            return
        self.parked.pop(t, None)
        self.parked[me] = key
        self.to(me, t)
        self.gate[me].acquire()
        self.parked.pop(me, None)

    def step(self, me, frame, key=None):
        self.steps += 1
        if key:
            if not importing(frame):
                self.meet(me, key)
            return
        if self.salt:
            if not self.hot(frame.f_code) or self.rng.random() < 0.5 or importing(frame):
                return
        else:
            self.left -= 1
            if self.left > 0 or importing(frame):
                return
            self.left = self.next_left()
        t = self.pick(me)
        if t != me:
            self.to(me, t)
            self.gate[me].acquire()

    def to(self, me, t):
        self.switches += 1
        self.h.update(b"%d:%d;" % (self.steps, t))
        self.gate[t].release()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.step(me, frame)
            return local

        def at(key):
            def hot(frame, event, arg):
                if event == "line":
                    self.step(me, frame, key)
                return hot
            return hot

        def select(frame, event, arg):
            code = frame.f_code
            if event == "call" and code.co_filename.startswith(ROOT):
                if self.mode == "object":
                    key = code.co_argcount and self.hot_object(frame.f_locals.get(code.co_varnames[0]))
                elif self.mode == "global":
                    if code not in self.touch:
                        self.touch[code] = touches(code, frame.f_globals)
                    key = self.touch[code] and self.hot(code) and code.co_qualname
                else:
                    key = self.hot(code) and code.co_qualname
                if key:
                    return at(key)
            return None

        if self.mode in ("meet", "object", "global"):
            return select

        def glob(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(ROOT):
                return local
            return None
        return glob

    def run(self, fns):
        def body(me, fn):
            self.gate[me].acquire()
            sys.settrace(self.tracer(me))
            try:
                fn()
            except BaseException as e:  # noqa: BLE001
                self.errors[me] = e
            finally:
                sys.settrace(None)
                self.alive.discard(me)
                if self.alive:
                    t = self.rng.choice(sorted(self.alive - {*self.parked}) or sorted(self.alive)) if self.parked else self.pick(me)
                    self.parked.pop(t, None)
                    self.to(me, t)
        ts = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        self.gate[self.rng.randrange(self.n)].release()
        for t in ts:
            t.join()
        return self.h.hexdigest()[:16]


def sample(rng):
    m = rng.choice(["lock", "rand", "rand", "few", "burst", "spot", "file", "meet", "meet", "object", "object", "object", "global", "global"])
    return {"mode": m, "param": {"lock": 1, "rand": rng.choice([2, 10, 60, 400, 3000]), "few": rng.choice([500, 5000, 20000]),
                                 "burst": rng.choice([30, 300]), "spot": rng.choice([0.02, 0.1, 0.3]), "file": rng.choice([0.1, 0.3]),
                                 "meet": rng.choice([0.02, 0.1, 0.3]), "object": rng.choice([0.1, 0.3, 1.0]), "global": rng.choice([0.3, 1.0, 1.0])}[m], "seed": rng.randrange(1 << 40)}
