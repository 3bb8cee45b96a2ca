"""Core of the deterministic simulator: seeds, scenarios, results, shrinking.

A *scenario* turns a seeded PRNG into a JSON plan (workload + schedule + faults)
and executes a plan.  Executing a plan is a pure function of the plan and of the
code under /repo: everything random was decided when the plan was generated.
"""
from __future__ import annotations

import hashlib
import json
import os
import random
import time
import traceback
from collections import Counter

REPO = os.environ.get("FEAX_REPO", "/repo")


def derive_seed(*parts) -> int:
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng_for(*parts) -> random.Random:
    return random.Random(derive_seed(*parts))


class Rebound:
    """While active, names in the modules of the system under test that are bound to one of the real objects
    (``from subprocess import Popen``) are bound to its stand-in instead."""

    def __init__(self, pairs, prefix="feax"):
        self.pairs, self.prefix, self.undo = list(pairs), prefix, []

    def __enter__(self):
        import sys
        by = {id(real): (real, fake) for real, fake in self.pairs if real is not fake}
        for name, mod in list(sys.modules.items()):
            if mod is not None and (name == self.prefix or name.startswith(self.prefix + ".")):
                for k, v in list(vars(mod).items()):
                    if id(v) in by and by[id(v)][0] is v:
                        self.undo.append((mod, k, v))
                        setattr(mod, k, by[id(v)][1])
        return self

    def __exit__(self, *a):
        while self.undo:
            setattr(*self.undo.pop())


class Violation(Exception):
    """The property is broken.  ``kind`` is the stable class of the violation."""

    def __init__(self, kind: str, msg: str):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """The simulator itself could not carry out the plan."""


class Result:
    def __init__(self):
        self.violation = None          # (kind, msg)
        self.faults = Counter()        # fault kind -> times it actually fired
        self.probes = Counter()        # rare conditions reached
        self.states = set()            # distinct interleavings / states (hashes)
        self.nontrivial = False
        self.sim_time = 0.0
        self.steps = 0
        self.digest = ""
        self.log = []
        self.known = []                # known findings met (ids)

    def ev(self, *a):
        self.log.append(a)

    def seal(self):
        h = hashlib.sha256()
        for a in self.log:
            h.update(repr(a).encode())
        self.digest = h.hexdigest()[:16]


class Scenario:
    prop = "P00"
    name = "base"
    weight = 1.0
    real = ""          # components running real code
    stub = ""          # components stubbed

    def setup(self):
        pass

    def gen(self, rng: random.Random) -> dict:
        raise NotImplementedError

    def execute(self, plan: dict, res: Result) -> None:
        """Run the plan; raise Violation; fill res."""
        raise NotImplementedError

    # keys of plan whose lists may be shortened by the minimiser
    shrink_lists = ("ops", "faults", "sched")
    # called on each candidate plan; return None to reject
    def normalise(self, plan):
        return plan


def from_repo(tb) -> bool:
    """Does the traceback pass through code of the repository?"""
    pre = os.path.join(os.path.realpath(REPO), "feax") + os.sep
    for f, _ in traceback.walk_tb(tb):
        if os.path.realpath(f.f_code.co_filename).startswith(pre):
            return True
    return False


def run_plan(sc: Scenario, plan: dict) -> Result:
    res = Result()
    try:
        sc.execute(plan, res)
    except Violation as v:
        res.violation = (v.kind, v.msg)
        res.ev("VIOLATION", v.kind)
    except HarnessError:
        raise
    except Exception as e:  # noqa
        if from_repo(e.__traceback__):
            tail = traceback.format_exception(type(e), e, e.__traceback__)[-4:]
            res.violation = ("unexpected-exception:" + type(e).__name__,
                             "".join(tail)[-900:])
            res.ev("VIOLATION", res.violation[0])
        else:
            raise
    res.seal()
    return res


# ----------------------------------------------------------------- minimiser
def _list_paths(obj, keys):
    for k in keys:
        if isinstance(obj.get(k), list):
            yield (k,)
    # one level of nesting: lists of dicts holding lists under the same keys
    for k in keys:
        v = obj.get(k)
        if isinstance(v, list):
            for i, e in enumerate(v):
                if isinstance(e, dict):
                    for kk in keys:
                        if isinstance(e.get(kk), list):
                            yield (k, i, kk)


def _get(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def minimise(sc: Scenario, plan: dict, kind: str, budget_s: float = 30.0,
             max_tries: int = 400):
    """Delta-debug the plan while the same violation kind persists."""
    t0 = time.monotonic()
    tries = 0
    best = plan

    def holds(cand):
        nonlocal tries
        tries += 1
        cand = sc.normalise(cand)
        if cand is None:
            return None
        try:
            r = run_plan(sc, cand)
        except Exception:
            return None
        if r.violation and r.violation[0] == kind:
            return cand
        return None

    progress = True
    while progress and time.monotonic() - t0 < budget_s and tries < max_tries:
        progress = False
        # custom simplifications first
        for cand in getattr(sc, "simplify", lambda p: ())(best):
            if time.monotonic() - t0 > budget_s or tries >= max_tries:
                break
            got = holds(json.loads(json.dumps(cand)))
            if got is not None:
                best = got
                progress = True
                break
        for path in list(_list_paths(best, sc.shrink_lists)):
            try:
                lst = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            n = max(1, len(lst) // 2)
            while n >= 1:
                i = 0
                while True:
                    try:
                        lst = _get(best, path)
                    except (KeyError, IndexError, TypeError):
                        break
                    if i >= len(lst):
                        break
                    if time.monotonic() - t0 > budget_s or tries >= max_tries:
                        return best, tries
                    cand = json.loads(json.dumps(best))
                    l2 = _get(cand, path)
                    del l2[i:i + n]
                    got = holds(cand)
                    if got is not None:
                        best = got
                        progress = True
                    else:
                        i += n
                n //= 2
    return best, tries
