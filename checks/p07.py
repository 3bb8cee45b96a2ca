"""P07 - the optimizer follows its schedule, bounds and pins on every evaluation."""
from checks import optsys as O
from sim.core import Scenario, Violation

RULE = ("A plan is an optimisation run: budget, continuation schedules, remesh cadence and meshes (same or other node "
        "count), passive nodes, constraints, bounds, and either the real MMA or a scripted inner optimiser with early "
        "stops and roundoff stops. Non-trivial: at least two evaluations and a continuation change, a remesh, a "
        "passive node or an abnormal stop.")
STATE_MEASURE = "distinct (constraints, schedules that changed, remeshes done by kind, pins, stop kinds, compiled or not) tuples"
TIME_UNIT = "objective evaluations"
REAL = "feax.gene.optimizer.run, feax.gene.adaptive.interpolate_field, JAX autodiff and jit, NLopt MMA (in the unscripted half)"
STUB = "physics (analytic objective and constraints); inner optimiser scripted in the other half; remesher"
ASSUMPTIONS = ["after a remesh that keeps the node count passive indices still apply (documented)",
               "a scripted inner optimiser only evaluates points within the bounds it was given"]
CONFIG = dict(quick=dict(wall_s=40, runs=20000, shrink_s=25, plan_s=100),
              thorough=dict(wall_s=1200, runs=10 ** 9, shrink_s=60, plan_s=100))


class Drive(Scenario):
    prop, name = "P07", "driver"
    shrink_lists = ("script", "cons", "solid", "void", "remesh")

    def setup(self):
        O.setup()

    def gen(self, rng):
        return O.gen_plan(rng, False)

    def normalise(self, p):
        return p if not (p["n_adapts"] and not p["remesh"]) else None

    def simplify(self, p):
        for k in list(p["conts"]):
            q = dict(p, conts={a: b for a, b in p["conts"].items() if a != k})
            yield q
        for n in (1, 2, 3, 5, 8):
            if n < p["max_iter"]:
                yield dict(p, max_iter=n)
        if p["jit"]:
            yield dict(p, jit=0)
        if p["adapt_every"]:
            yield dict(p, adapt_every=0, n_adapts=0)

    def execute(self, plan, res):
        run = O.Run(plan, res)
        r, exc = run.run()
        res.steps += run.done
        res.sim_time += run.done
        if exc is not None:
            raise exc
        run.check_result(r)
        chg = sorted(k for k, c in plan["conts"].items() if O.ref_value_at(c, plan["max_iter"] - 1) != c["initial"])
        same = [len(m.points) == run.n0 for m in run.builds[1:]]
        res.ev([e[1].hex() for e in run.evals], run.remeshes)
        stops = sorted({e for _, e in plan["script"]})
        res.states.add(str((plan["cons"], chg, same, bool(plan["solid"]), bool(plan["void"]), stops, plan["jit"],
                            plan["transfer"] if same else "", min(run.done, 4))))
        res.nontrivial = run.done >= 2 and bool(chg or same or plan["solid"] or plan["void"] or plan["script"])
        if same:
            res.probes["remesh-same-count" if any(same) else "remesh-other-count"] += 1


SCENARIOS = [Drive()]
