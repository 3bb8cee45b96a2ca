"""P02 - a failed direct solve reports failure and never poisons later solves."""
import os

import numpy as np

from checks.p01 import gen_sched
from sim import directsys as ds
from sim import sched
from sim.core import REPO, Scenario, Violation
from sim.faultlines import fault_lines

RULE = ("A plan is a history of solves (one thread, or 2-3 interleaved threads) with failures injected "
        "before/after backend calls and at statements of the host solver code, mixed with singular, "
        "indefinite and NaN systems. Non-trivial: at least one failure fired (injected or by an invalid "
        "system) and at least one other solve was checked.")
STATE_MEASURE = "distinct (backend, kind of solve, failure kind, place of failure, outcome of the solve) tuples"
REAL = "feax.solvers.direct (host callbacks, vmap rules, caches), JAX pure_callback, CHOLMOD, UMFPACK, SuperLU"
STUB = ("thread scheduling; failures raised at backend call boundaries and at statements of the host code; "
        "locks created by feax are scheduler-owned")
ASSUMPTIONS = ["a failure hits a statement that calls something (allocation, backend), not clean-up code",
               "native backend calls are atomic"]
CONFIG = dict(quick=dict(wall_s=55, runs=9000, shrink_s=25, plan_s=100),
              thorough=dict(wall_s=1500, runs=10 ** 9, shrink_s=60, plan_s=100))
EXC = {"mem": MemoryError, "int": KeyboardInterrupt, "os": OSError}


class Faulty(Scenario):
    prop, name = "P02", "serial-faults"
    shrink_lists = ("tasks", "ops", "faults", "sched")
    threaded = False

    def setup(self):
        ds.setup()
        self.dir = os.path.join(os.path.realpath(REPO), "feax", "solvers", "direct")

    def gen(self, rng):
        be = rng.choice(["cholmod", "umfpack", "cholmod", "umfpack", "spsolve", "mixed"])
        pool = ds.gen_pool(rng)
        nt = rng.choice([2, 2, 3]) if self.threaded else 1
        proto = ds.gen_op(rng, pool, be if be != "mixed" else "cholmod")
        uni = rng.random() < 0.8
        jit_p = 0.0 if rng.random() < 0.9 else 0.6
        badp = rng.choice([0.0, 0.15, 0.3])
        f32 = rng.random() < 0.06
        tasks = []
        for _ in range(nt):
            ops = []
            for _ in range(rng.choice([1, 2, 2]) if self.threaded else rng.randrange(2, 7)):
                b = be if be != "mixed" else rng.choice(["cholmod", "umfpack", "spsolve"])
                op = ds.gen_op(rng, pool, b, jit_p=jit_p, bad_p=badp, f32=f32)
                if uni and b == proto["be"]:
                    for k in ("order", "lower", "trans", "reorder"):
                        if k in proto:
                            op[k] = proto[k]
                    for x in op["sys"]:
                        if "tri" in x:
                            x["tri"] = "L" if op.get("lower") else "U"
                    if rng.random() < 0.6:
                        op["kind"] = "single"
                        op["sys"] = op["sys"][:1]
                op["ns"] = 0
                ops.append(op)
            if not self.threaded and rng.random() < 0.6:
                ops.append(dict(rng.choice(ops)))       # come back to an earlier system
            if rng.random() < 0.5:                      # try the same system again at once
                k = rng.randrange(len(ops))
                ops.insert(k + 1, dict(ops[k]))
            tasks.append(dict(ops=ops))
        total = sum(len(t["ops"]) for t in tasks)
        faults = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if rng.random() < 0.45:
                faults.append(["call", rng.randrange(2 * total), rng.choice(["before", "after"])])
            else:
                faults.append(["line", rng.randrange(20 * total), rng.choice(["mem", "mem", "int", "os"])])
        return dict(tasks=tasks, faults=faults,
                    sched=gen_sched(rng, 34 * total, 6 * total, nt) if nt > 1 else [])

    def directed(self):
        """Every early fault position on: known pattern with new values, retry, back to the first, other pattern, again."""
        if self.threaded:
            return
        x = dict(pid=1, n=4, bs=5, tw=0, sym=True)
        for be, opt in (("cholmod", dict(order="default", lower=0)), ("umfpack", dict(trans="N")), ("spsolve", dict(reorder=1))):
            one = lambda bad=None, **k: dict(be=be, kind="single", ns=0, sys=[dict(x, **k, **({"bad": bad} if bad else {}))], **opt)  # noqa
            two = dict(be=be, kind="vmap_v", ns=0, sys=[dict(x, vs=4), dict(x, vs=9)], **opt)
            a, b, c = one(vs=1), one(vs=2), one(vs=3, pid=0)
            ops = [a, b, b, a, c, b, a]
            plan = lambda ops, faults: dict(tasks=[dict(ops=[dict(o) for o in ops])], faults=faults, sched=[])  # noqa
            for i in range(10):
                for k in ("before", "after"):
                    yield plan(ops, [["call", i, k]])
                yield plan(ops, [["call", i, "before"], ["call", i + 1, "before"]])
                yield plan([a, two, two, b, a], [["call", i, "before"]])
            for p in range(0, 90, 1 if be != "spsolve" else 3):
                yield plan(ops, [["line", p, ("mem", "int", "os")[p % 3]]])
            for bad in ("singular", "indefinite", "nan"):
                yield plan([a, one(vs=2, bad=bad), b, one(vs=2, bad=bad), one(vs=2, bad=bad), a, c, one(vs=3, bad=bad), a], [])

    def execute(self, plan, res):
        sim = sched.Sim(plan["sched"])
        sim.host_only = len(plan["tasks"]) > 1 or any(
            o.get("jit") for t in plan["tasks"] for o in t["ops"])
        uid = ds.fresh_uid()
        results, hit, running = {}, {}, {}
        callf = {p: k for c, p, k in plan["faults"] if c == "call"}
        linef = {p: k for c, p, k in plan["faults"] if c == "line"}
        npos = [0]

        def fired(what):
            res.faults[what.split("@")[0]] += 1
            hit.setdefault(running.get(sim.cur.name), []).append(what)
            res.ev("fault", sim.cur.name, what)

        def hook(sim_, task, label):
            parts = label.split(":")
            if len(parts) != 3:
                return
            if int(parts[2]) not in fault_lines(os.path.join(self.dir, parts[0])):
                return
            p = npos[0]
            npos[0] += 1
            k = linef.get(p)
            if k is None:
                return
            if k == "int" and running[task.name][2]:
                k = "mem"
            fired(f"line-{k}@{parts[0]}:{parts[1]}")
            raise EXC[k]("injected at " + label)

        sim.fault_hook = hook

        def mk(ti, ops):
            def body():
                for oi, op in enumerate(ops):
                    running[f"t{ti}"] = (ti, oi, op.get("jit"))
                    try:
                        results[ti, oi] = ("ok", ds.solve_op(op, f"{uid}-0"))
                    except Violation:
                        raise
                    except (Exception, KeyboardInterrupt) as e:
                        results[ti, oi] = ("exc", e)
            return body

        for ti, t in enumerate(plan["tasks"]):
            sim.spawn(f"t{ti}", mk(ti, t["ops"]))
        if not plan["tasks"]:
            return
        ds.BACKEND.arm({}, None)
        for t in plan["tasks"]:
            for op in t["ops"]:
                if op.get("jit"):
                    try:
                        ds.solve_op(op, f"{uid}-0")
                    except Exception:
                        pass
        ds.BACKEND.arm(callf, lambda name, kind: fired(f"backend-{kind}@{name}"))
        try:
            sim.run()
        finally:
            ds.BACKEND.disarm()
            ds._JIT.clear()
        res.steps += sim.points
        res.sim_time += sim.points
        good = bad = 0
        for ti, t in enumerate(plan["tasks"]):
            for oi, op in enumerate(t["ops"]):
                got = results.get((ti, oi))
                where = f"thread {ti} solve {oi} ({op['be']} {op['kind']})"
                if got is None:
                    raise Violation("lost-solve", f"{where} never returned")
                faulted = [f for h, fs in hit.items() if h and h[:2] == (ti, oi) for f in fs]
                ok = ds.op_solvable(op)
                res.ev(ti, oi, got[0], got[1].tobytes().hex() if got[0] == "ok" else type(got[1]).__name__)
                out = got[0] if got[0] == "exc" else ("finite" if np.isfinite(got[1]).all() else "nonfinite")
                res.states.add("|".join([op["be"], op["kind"], ",".join(faulted) or "-",
                                         ",".join(str(s.get("bad")) for s in op["sys"]), out]))
                if faulted or not ok:
                    bad += 1
                    if not ok:
                        res.faults["invalid-system"] += 1
                    if got[0] == "exc" or out == "nonfinite":
                        continue
                    if not ok:
                        raise Violation("finite-answer-for-unsolvable",
                                        f"{where} returned finite values for a system with no solution: {op}")
                    why = ds.compare(op, got[1])
                    if why:
                        raise Violation("failed-solve-returned-wrong", f"{where} after {faulted}: {why}")
                    continue
                good += 1
                if got[0] == "exc":
                    raise Violation("later-solve-raised", f"{where}: {type(got[1]).__name__}: {str(got[1])[-300:]}; "
                                    f"faults {hit}")
                why = ds.compare(op, got[1])
                if why:
                    raise Violation("later-solve-wrong", f"{where}: {why}; faults {hit}")
        res.nontrivial = bool(good and bad)


class FaultyThreads(Faulty):
    name = "threads-faults"
    threaded = True
    weight = 0.5


SCENARIOS = [Faulty(), FaultyThreads()]
