"""P12 - a cluster launch never loses a process or hides a failure."""
from checks import p11
from sim.core import Violation

RULE = ("A plan is a cluster configuration and, per process, start delay, duration and exit status, plus faults: a spawn "
        "that fails, a missing script, an interruption at the n-th spawn/wait. Non-trivial: a fault fired or a process "
        "failed, with at least one remote node.")
STATE_MEASURE = "distinct (node count, which processes failed, spawn fault position and kind, interruption position, end order) tuples"
TIME_UNIT = "seconds of virtual cluster time"
REAL = "feax.distributed.main/_launch/_load_config, argparse, PyYAML, subprocess.run"
STUB = "subprocess.Popen and everything behind it (processes, signals, waits, virtual clock)"
ASSUMPTIONS = ["an interruption arrives while the launcher spawns (before the process exists) or waits, at most once; not between "
               "the creation of a process and the assignment of its handle",
               "every simulated process ends by itself eventually or when signalled"]
CONFIG = dict(quick=dict(wall_s=25, runs=20000, shrink_s=15, plan_s=60),
              thorough=dict(wall_s=600, runs=10 ** 9, shrink_s=30, plan_s=60))


class Supervise(p11.Launch):
    prop, name = "P12", "supervise"

    def gen(self, rng):
        plan = super().gen(rng)
        plan["cfg"] = p11.gen_config(rng, rng.choice([0, 1, 1, 2, 3, 4, 6]))
        n = 1 + len(plan["cfg"].get("nodes") or [])
        plan["specs"] = [dict(delay=round(rng.choice([0.002, 0.5, 3.0]) * (0.5 + rng.random()), 4),
                              dur=round(rng.choice([0.001, 0.1, 1.0, 30.0, 600.0]) * (0.5 + rng.random()), 4),
                              rc=rng.choice([0, 0, 0, 1, 2, 255, -9, -15, -11, 137]) if rng.random() < 0.6 else 0,
                              stubborn=int(rng.random() < 0.15)) for _ in range(n)]
        if n > 1 and rng.random() < 0.15:
            # failures whose statuses cancel or wrap when they are combined
            for s, rc in zip(rng.sample(plan["specs"], 2), rng.choice([(1, -1), (15, -15), (9, -9), (255, 1), (1, 255), (254, 2)])):
                s["rc"] = rc
        plan["args"] = plan["args"][:1]
        r = rng.random()
        if r < 0.25:
            plan["faults"] = [[rng.randrange(n), rng.choice(["enoent", "eagain", "enomem", "emfile"])]]
        elif r < 0.55:
            plan["interrupts"] = [[rng.randrange(2 * n + 1), rng.choice(["int", "term"])]]
        elif r < 0.62:
            plan["missing"] = 1
        if rng.random() < 0.1:
            for s in plan["specs"]:
                s["rc"] = 0
        return plan

    def execute(self, plan, res):
        script, w, code, exc, nlive, nunreaped, err = self.run(plan, res)
        n = 1 + len(plan["cfg"].get("nodes") or [])
        natural = [plan["specs"][min(i, len(plan["specs"]) - 1)]["rc"] for i in range(len(w.procs))]
        what = (f"nodes={n - 1} started={len(w.procs)} exit statuses={natural} spawn fault={plan['faults']} "
                f"interruption={plan['interrupts']}{' script missing' if plan.get('missing') else ''}")
        if nlive:
            raise Violation("process-left-running", f"{nlive} processes still run after the launcher ended with {code!r}: {what}")
        if nunreaped:
            raise Violation("process-not-reaped", f"{nunreaped} ended processes were not reaped: {what}")
        # what the caller's shell sees: None is success, an integer is truncated to eight bits, anything else is 1
        ok_status = exc is None or (isinstance(exc, SystemExit)
                                    and (code is None or (isinstance(code, int) and code & 255 == 0)))
        disturbed = bool(w.raised) or bool(plan.get("missing") and n > 1) or len(w.procs) < n or any(natural)
        if ok_status and disturbed:
            raise Violation("failure-hidden", f"the launcher ended with status {code!r}: {what}")
        if not ok_status and not disturbed and not plan.get("missing"):
            raise Violation("success-hidden", f"every process succeeded but the launcher ended with {code!r}: {what}")
        for i, p in enumerate(w.procs):
            # without a failure of the launch itself nothing is taken down
            if p.signals and not w.raised and not plan.get("missing") and not any(natural):
                raise Violation("killed", f"process {i} was signalled although nothing failed: {what}")
        for i, r in enumerate(natural):
            if r:
                res.faults["coordinator-fails" if i == len(w.procs) - 1 and len(w.procs) == n else "worker-fails"] += 1
        if plan.get("missing"):
            res.faults["script-missing"] += 1
        ends = tuple(sorted(range(len(w.procs)), key=lambda i: w.procs[i].t_end))
        res.states.add(hash((n, tuple(bool(x) for x in natural), tuple(map(tuple, plan["faults"])),
                             tuple(map(tuple, plan["interrupts"])), ends)))
        res.nontrivial = n > 1 and disturbed
        res.probes["interrupted"] += bool(plan["interrupts"] and w.raised)
        res.probes["worker-outlives-coordinator"] += len(w.procs) == n and n > 1 and ends[-1] != n - 1


SCENARIOS = [Supervise()]
