"""Basics shared by all simulations: seeded randomness, event log, outcome of a run.

One integer decides a run: `rng(seed, ...)` derives every generator from it.  Nothing in here reads a real
clock or draws from a global generator."""
import hashlib
import json
import os
import random
import traceback

REPO = os.environ.get("THINC_SIM_REPO", "/repo")
THINC = REPO + "/thinc/"


def derive(*parts):
    h = hashlib.sha256("\0".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def fp(x):
    """Fingerprint of a value, the same in every process."""
    return derive(repr(x))


def rng(*parts):
    return random.Random(derive(*parts))


class SimCrash(BaseException):
    """The simulated process dies here.  Not an Exception: nothing in the code under test may swallow it."""


class InjectedFault(Exception):
    """An exception that the simulator injects (a failing callback, a failing remote...)."""


class HarnessError(Exception):
    """The simulator itself is wrong; never a verdict about the code under test."""


class Violation(Exception):
    def __init__(self, cls, msg, **detail):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg, self.detail = cls, msg, detail


def check(cond, cls, msg="", **detail):
    if not cond:
        raise Violation(cls, msg() if callable(msg) else msg, **detail)


class Log:
    """Event log of one run: a running hash, never read by the simulation itself."""

    def __init__(self, keep=False):
        self.h = hashlib.sha256()
        self.n = 0
        self.keep = keep
        self.events = []

    def add(self, *ev):
        s = repr(ev)
        self.h.update(s.encode())
        self.n += 1
        if self.keep:
            self.events.append(s)

    def digest(self):
        return self.h.hexdigest()[:16]


class Run:
    """Everything one run reports."""

    def __init__(self, keep_log=False):
        self.log = Log(keep_log)
        self.faults = {}  # kind -> how often it actually fired
        self.probes = {}  # rare condition -> how often it was hit
        self.steps = 0  # simulated time in scheduler steps / instructions
        self.sim_time = 0.0  # simulated seconds on the virtual clock, where there is one
        self.measure = set()  # distinct-state/interleaving fingerprints
        self.nontrivial = False
        self.explicit = None  # explicit schedule that replays this run

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n


def from_thinc(exc):
    """Does the traceback (or its causes) pass through the code under test?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fs in traceback.extract_tb(exc.__traceback__):
            if fs.filename.startswith(THINC) or "thinc/" in fs.filename and fs.filename.endswith(".pyx"):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def fmt_exc(exc, limit=12):
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__, limit=-limit))


def canon(obj):
    return json.dumps(obj, sort_keys=True)


# ---------------------------------------------------------------- generic shrinking

def shrink_list(xs, min_len=0):
    """Candidates: the list with a chunk removed, big chunks first."""
    n = len(xs)
    size = n
    while size >= 1:
        i = 0
        while i < n:
            cand = xs[:i] + xs[i + size:]
            if len(cand) >= min_len and len(cand) < n:
                yield cand
            i += size
        size //= 2


def with_path(case, path, value):
    if not path:
        return value
    k, rest = path[0], path[1:]
    if isinstance(case, list):
        out = list(case)
    else:
        out = dict(case)
    out[k] = with_path(case[k], rest, value)
    return out


def get_path(case, path):
    for k in path:
        case = case[k]
    return case


def minimise(case, fails, candidates, budget):
    """Greedy: take the first candidate that still fails, start over; `budget()` says whether to go on."""
    cur = case
    progress = True
    while progress and budget():
        progress = False
        for cand in candidates(cur):
            if not budget():
                break
            if canon(cand) == canon(cur):
                continue
            if fails(cand):
                cur = cand
                progress = True
                break
    return cur
