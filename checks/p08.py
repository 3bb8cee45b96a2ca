"""P08 - the optimizer's log and snapshots survive faults and crashes."""
import os

import numpy as np

from checks import optsys as O
from sim import fsim
from sim.core import Scenario, Violation

RULE = ("A plan is an optimisation run with an output directory plus faults: user code (objective, constraint, filter, "
        "build, remesh, transfer) raising or the process dying at its n-th call, a storage fault at the n-th storage "
        "operation, early and roundoff stops of the inner optimiser; optionally a rerun into the same directory. "
        "Non-trivial: at least one evaluation completed and a fault fired, or a snapshot besides the final one was due.")
STATE_MEASURE = "distinct (fault kinds fired, phase, evaluations done bucket, remeshes, snapshots due, outcome) tuples"
TIME_UNIT = "objective evaluations"
REAL = "feax.gene.optimizer.run, feax.utils.save_sol, meshio VTU writer, csv, Python buffering, NLopt MMA (unscripted runs)"
STUB = "physics (analytic), write system call below Python's buffers, inner optimiser in scripted runs, remesher"
ASSUMPTIONS = ["a crash loses Python-level buffers and nothing that was handed to the operating system",
               "a snapshot whose own write was hit by a storage fault may be damaged"]
CONFIG = dict(quick=dict(wall_s=40, runs=20000, shrink_s=25, plan_s=100),
              thorough=dict(wall_s=1200, runs=10 ** 9, shrink_s=60, plan_s=100))


class Files(Scenario):
    prop, name = "P08", "files"
    shrink_lists = ("script", "cons", "solid", "void", "remesh", "faults", "io")

    def setup(self):
        O.setup()

    def gen(self, rng):
        p = O.gen_plan(rng, True)
        p["max_iter"] = min(p["max_iter"], 12)
        p["target"] = max(p["target"], 0.3)
        r = rng.random()
        if r < 0.45:
            for _ in range(rng.choice([1, 1, 2])):
                w = rng.choice(["objective", "objective", "constraint", "filter", "build", "remesh", "transfer"])
                hi = {"objective": 12, "constraint": 30, "filter": 6, "build": 3, "remesh": 2, "transfer": 2}[w]
                p["faults"].append([w, rng.randrange(hi), rng.choice(["boom", "int", "os", "val", "rt", "mem", "zero", "key", "crash", "crash"])])
        if 0.35 < r < 0.85:
            for _ in range(rng.choice([1, 1, 2])):
                p["io"].append([rng.randrange(40), rng.choice(["enospc", "eio", "torn", "short", "crash"])])
        p["second"] = int(rng.random() < 0.3)
        return p

    def normalise(self, p):
        return p if not (p["n_adapts"] and not p["remesh"]) else None

    def simplify(self, p):
        for k in list(p["conts"]):
            yield dict(p, conts={a: b for a, b in p["conts"].items() if a != k})
        for n in (1, 2, 3, 5, 8):
            if n < p["max_iter"]:
                yield dict(p, max_iter=n)
        if p["adapt_every"]:
            yield dict(p, adapt_every=0, n_adapts=0)
        if p["jit"]:
            yield dict(p, jit=0)
        if p["second"]:
            yield dict(p, second=0)

    def execute(self, plan, res):
        with fsim.FS(plan["io"]) as fs:
            held = self.one(plan, res, fs)
            if plan.get("second"):
                fs.plan, fs.pending_fail = {}, None
                p2 = dict(plan, faults=[], io=[], script=[], max_iter=min(4, plan["max_iter"] + 1), second=0)
                run = self.one(p2, res, fs, True)
                held = None              # noqa  the failed run's objects go away only now
                run2 = run
                tab = run2.table()
                run2.check_disk(tab, run2.done, run2.done, "after a rerun into the same directory", False)
                res.probes["rerun"] += 1

    def one(self, plan, res, fs, second=False):
        run = O.Run(plan, res, fs)
        out = os.path.join(fs.root, "o", "x")
        fired0 = len(fs.fired)
        damaged = set()

        def on_fault(kind, what):
            res.faults[f"{what}-{kind}"] += 1
            res.ev("io", kind, what)

        def on_op(what):
            if fs.plan.get(fs.n - 1) == "crash":
                run.crash("storage")
        fs.on_fault, fs.on_op = on_fault, on_op
        r, exc = run.run(out)
        hard = [f for f in fs.fired[fired0:] if f[0] != "short"]
        crashed = run.crash_disk is not None
        res.steps += run.done
        res.sim_time += run.done
        due = [k for k in run.snaps]
        res.nontrivial = res.nontrivial or bool(run.done and (hard or run.raised or crashed or due))
        res.states.add(str((sorted({f"{a}{b}" for a, b in hard}), sorted({type(e).__name__ for e in run.raised}), crashed,
                            run.in_eval, min(run.done, 3), len(run.remeshes), min(len(due), 2), exc is None,
                            [w for w, i, k in plan["faults"]] if (run.raised or crashed) else [])))
        res.ev(run.done, type(exc).__name__, len(due))
        if exc is None:
            if run.raised or crashed:
                raise Violation("failure-swallowed", f"run returned although {run.raised or 'a crash'} occurred")
            run.check_result(r)
            run.check_disk(run.table(), run.done, run.done, "after the run", False)
            run.snaps["final.vtu"] = (r.mesh, O.ref_filter(r.mesh, np.asarray(r.rho)))
            names = {f for f in os.listdir(out) if f.endswith(".vtu")}
            want = set(run.snaps) | {f"adapt_{i + 1:02d}.vtu" for i in range(len(run.remeshes))}
            if not second and names != want:
                raise Violation("snapshots", f"files {sorted(names)}, expected {sorted(want)}")
            if second and not want <= names:
                raise Violation("snapshots", f"missing {sorted(want - names)}")
            for nm, (m, f) in run.snaps.items():
                self.check_vtu(os.path.join(out, nm), m, f)
            for i in range(len(run.remeshes)):
                self.check_vtu(os.path.join(out, f"adapt_{i + 1:02d}.vtu"), run.builds[i + 1],
                               run.evals[run.remeshes[i]][0] if run.remeshes[i] < len(run.evals) else None)
            return run
        if not (run.raised or crashed or hard):
            raise exc
        if run.raised and not crashed and not hard:
            chain, e = [], exc
            while e is not None and len(chain) < 20:
                chain.append(e)
                e = e.__cause__ or e.__context__
            if not any(x is y for x in chain for y in run.raised):
                raise Violation("failure-replaced", f"run raised {exc!r}, user code raised {run.raised[0]!r}")
        tab = run.crash_disk[0] if crashed else run.table()
        dn = run.crash_disk[1] if crashed else run.done
        in_eval = run.crash_disk[2] if crashed else run.in_eval
        if dn or (tab is not None and tab[0]):
            run.check_disk(tab, dn, dn + (1 if in_eval else 0), "after the crash" if crashed else "after the failure",
                           bool(hard) or crashed)
        if os.path.isdir(out):
            names = {f for f in os.listdir(out) if f.startswith("iter_") and f.endswith(".vtu")}
            if not second and not crashed:
                nxt = f"iter_{run.done + 1:04d}.vtu"
                extra = names - set(run.snaps) - ({nxt} if (run.done + 1) % plan["save_every"] == 0 else set())
                if extra or not set(run.snaps) <= names:
                    raise Violation("snapshots", f"after the failure: files {sorted(names)}, expected {sorted(run.snaps)}")
                if not hard:
                    for nm, (m, f) in run.snaps.items():
                        self.check_vtu(os.path.join(out, nm), m, f)
        return (run, exc)

    @staticmethod
    def check_vtu(path, mesh, field):
        import meshio
        try:
            m = meshio.read(path)
        except Exception as e:
            raise Violation("snapshot-unreadable", f"{os.path.basename(path)}: {type(e).__name__} {e}")
        if not np.allclose(m.points, np.asarray(mesh.points), atol=1e-12) \
                or not np.array_equal(m.cells[0].data, np.asarray(mesh.cells)):
            raise Violation("snapshot-mesh", f"{os.path.basename(path)} holds another mesh")
        if field is not None:
            d = np.asarray(m.point_data["density"]).ravel()
            if d.shape != field.shape or np.max(np.abs(d - field)) > 1e-6:
                raise Violation("snapshot-field", f"{os.path.basename(path)} does not hold the density it stands for")


SCENARIOS = [Files()]
