"""P01 - concurrent direct solves each answer their own system."""
from sim import directsys as ds
from sim import sched
from sim.core import Scenario, Violation

RULE = ("A plan is 2-4 caller threads, each with 1-3 solves drawn from a small pool of colliding "
        "systems, plus a sparse preemption list. Non-trivial: at least two threads were inside host "
        "solver code at once (at least one preemption fired between two unfinished solves).")
STATE_MEASURE = "distinct sequences of (task switched to, source line / backend call where it happened)"
REAL = "feax.solvers.direct (all host callbacks, vmap rules, caches), JAX pure_callback/XLA, CHOLMOD, UMFPACK, SuperLU"
STUB = "thread scheduling (one thread released at a time); threading.Lock/RLock created by feax are scheduler-owned"
ASSUMPTIONS = ["preemption granularity is a Python source line of feax/solvers/direct plus backend call boundaries",
               "native backend calls are atomic"]
CONFIG = dict(quick=dict(wall_s=40, runs=6000, shrink_s=25, plan_s=100),
              thorough=dict(wall_s=1500, runs=10 ** 9, shrink_s=60, plan_s=100))


def gen_sched(rng, npoints, nseam, ntasks):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5, 8])):
        out.append(["line", rng.randrange(npoints), rng.randrange(1, ntasks + 1)])
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        out.append(["seam", rng.randrange(nseam), rng.randrange(1, ntasks + 1)])
    for _ in range(rng.choice([0, 0, 1, 2])):
        out.append(["pick", rng.randrange(6), rng.randrange(ntasks + 1)])
    return out


class Concurrent(Scenario):
    prop, name = "P01", "threads"
    shrink_lists = ("tasks", "ops", "sched")

    def setup(self):
        ds.setup()

    def gen(self, rng):
        be = rng.choice(["cholmod", "umfpack", "cholmod", "umfpack", "spsolve", "mixed"])
        pool = ds.gen_pool(rng)
        nt = rng.choice([2, 2, 2, 3, 3, 4])
        jit_p = 0.0 if rng.random() < 0.9 else 0.7
        # most runs share one configuration so that all threads share one cache entry
        uni = rng.random() < 0.7
        proto = ds.gen_op(rng, pool, be if be != "mixed" else "cholmod")
        f32 = rng.random() < 0.1
        tasks = []
        for _ in range(nt):
            ops = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                b = be if be != "mixed" else rng.choice(["cholmod", "umfpack", "spsolve"])
                op = ds.gen_op(rng, pool, b, jit_p=jit_p, f32=f32 or rng.random() < 0.04)
                if uni and b == proto["be"]:
                    for k in ("order", "lower", "trans", "reorder"):
                        if k in proto:
                            op[k] = proto[k]
                    for x in op["sys"]:
                        if "tri" in x:
                            x["tri"] = "L" if op.get("lower") else "U"
                    if op["kind"] != proto["kind"] and rng.random() < 0.6:
                        op["kind"] = "single"
                        op["sys"] = op["sys"][:1]
                op["ns"] = 0 if uni or rng.random() < 0.7 else 1
                ops.append(op)
            tasks.append(dict(ops=ops))
        total = sum(len(t["ops"]) for t in tasks)
        return dict(tasks=tasks, sched=gen_sched(rng, 34 * total, 6 * total, nt))

    def execute(self, plan, res):
        sim = sched.Sim(plan["sched"])
        sim.host_only = True
        uid = ds.fresh_uid()
        results = {}

        def mk(ti, ops):
            def body():
                for oi, op in enumerate(ops):
                    ns = f"{uid}-{op.get('ns', 0)}"
                    try:
                        results[ti, oi] = ("ok", ds.solve_op(op, ns))
                    except Violation:
                        raise
                    except Exception as e:
                        results[ti, oi] = ("exc", e)
            return body

        for ti, t in enumerate(plan["tasks"]):
            sim.spawn(f"t{ti}", mk(ti, t["ops"]))
        if not plan["tasks"]:
            return
        ds.BACKEND.arm({}, None)
        for ti, t in enumerate(plan["tasks"]):
            for op in t["ops"]:
                if op.get("jit"):       # compile outside the simulation (compiling holds a lock)
                    ds.solve_op(op, f"{uid}-{op.get('ns', 0)}")
        sim.run()
        ds._JIT.clear()
        res.steps += sim.points
        res.sim_time += sim.points
        res.nontrivial = sim.switches > 0
        res.probes["switches"] += sim.switches
        if sim.trace:
            res.states.add(hash(tuple(sim.trace)) & 0xffffffffffff)
        for s in sim.trace:
            res.ev(*s)
        for ti, t in enumerate(plan["tasks"]):
            for oi, op in enumerate(t["ops"]):
                got = results.get((ti, oi))
                if got is None:
                    raise Violation("lost-solve", f"thread {ti} solve {oi} never returned")
                if got[0] == "exc":
                    raise Violation("solve-raised", f"thread {ti} solve {oi} ({op['be']} {op['kind']}) raised "
                                    f"{type(got[1]).__name__}: {str(got[1])[-300:]}")
                why = ds.compare(op, got[1])
                res.ev(ti, oi, op["be"], op["kind"], got[1].tobytes().hex())
                res.probes[f"{op['be']}-{op['kind']}"] += 1
                if why:
                    raise Violation("wrong-answer", f"thread {ti} solve {oi} ({op['be']} {op['kind']}): {why}")


class Serial(Concurrent):
    """Fault-free histories on one thread: the cache must follow every change."""
    name = "serial"
    weight = 0.5

    def gen(self, rng):
        p = super().gen(rng)
        ops = [o for t in p["tasks"] for o in t["ops"]]
        ops += [o for t in super().gen(rng)["tasks"] for o in t["ops"]]
        rng.shuffle(ops)
        return dict(tasks=[dict(ops=ops)], sched=[])

    def execute(self, plan, res):
        super().execute(plan, res)
        res.nontrivial = sum(len(t["ops"]) for t in plan["tasks"]) > 1


SCENARIOS = [Concurrent(), Serial()]
