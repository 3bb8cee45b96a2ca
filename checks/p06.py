"""P06 - time-run outputs match the steps taken, through faults and crashes."""
import contextlib
import csv
import gc
import io
import os

from sim import fsim
from sim.core import Scenario, Violation

RULE = ("A plan is a time run with an output directory, cadences for snapshots, callbacks and printing, and a list of "
        "faults: user code raising at its n-th call, a storage fault at the n-th storage operation, a process crash at "
        "the n-th event; optionally a second run into the same directory. Non-trivial: at least two steps were taken "
        "and a fault or crash fired, or the cadences selected a proper subset of the steps.")
STATE_MEASURE = "distinct (fault kind, place, step phase, rows on disk relative to steps done, cadence class) tuples"
TIME_UNIT = "time steps simulated"
REAL = "feax.solvers.time_solver.run with the real csv writer and Python file buffering"
STUB = "the physics (trivial pipeline); the write system call below Python's buffers (can fail, tear, write short)"
ASSUMPTIONS = ["a crash loses Python-level buffers and nothing that was handed to the operating system",
               "whether a step's row is written before or after its own snapshot and callbacks is left open"]
CONFIG = dict(quick=dict(wall_s=30, runs=30000, shrink_s=20, plan_s=60),
              thorough=dict(wall_s=900, runs=10 ** 9, shrink_s=40, plan_s=60))


class Crash(BaseException):
    pass


class Boom(RuntimeError):
    pass


# (start time, step size): round ones, ones no short decimal holds, and tiny steps from a large start time
GRID = [(0.5, 0.25), (0.0, 1.0 / 3.0), (2.0 / 7.0, 0.1 / 3.0), (1234567.0 + 1.0 / 3.0, 1.0 / 1024.0), (-1.0 / 3.0, 1e-6 / 7.0)]
EPS = 2.0 ** -52


def far(a, b):
    return not abs(a - b) <= 64 * EPS * max(abs(a), abs(b))


EXC = {"boom": Boom, "int": KeyboardInterrupt, "os": OSError, "val": ValueError, "rt": RuntimeError, "mem": MemoryError,
       "zero": ZeroDivisionError, "key": KeyError}


def table(path):
    """(header, complete rows, torn tail) of the table on disk, or None."""
    raw = fsim.read(path)
    if raw is None:
        return None
    txt = raw.decode("utf-8", "replace")
    i = txt.rfind("\n")
    tail = txt[i + 1:]
    rows = list(csv.reader(io.StringIO(txt[:i + 1], newline="")))
    if not rows:
        return [], [], tail
    return rows[0], rows[1:], tail


class Outputs(Scenario):
    prop, name = "P06", "outputs"
    shrink_lists = ("faults", "io", "callbacks")

    def setup(self):
        import warnings
        warnings.simplefilter("ignore")
        fsim.install()
        import feax.solvers.time_solver as ts
        self.ts = ts
        gc.collect()
        gc.freeze()

    def gen(self, rng):
        n = rng.choice([1, 2, 3, 4, 5, 7, 10, 12, 20])
        plan = dict(n=n, rem=rng.choice([0.0, 0.0, 0.4]), save_every=rng.choice([1, 2, 3, 5, 10, 100]),
                    print_every=rng.choice([1, 3, 1000]), keys=rng.choice([[], ["a"], ["a", "b"], ["energy", "a", "z"]]),
                    callbacks=[rng.choice([1, 2, 3, 4, 7]) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                    out=int(rng.random() < 0.92), adapt=int(rng.random() < 0.25), np=int(rng.random() < 0.2),
                    big=int(rng.random() < 0.15), grid=rng.randrange(len(GRID)),
                    omit=rng.choice([0, 0, 2, 3]), nested=int(rng.random() < 0.3), faults=[], io=[], second=None)
        r = rng.random()
        if r < 0.45:
            for _ in range(rng.choice([1, 1, 2])):
                w = rng.choice(["step", "step", "monitor", "save", "callback", "adapt", "build", "init"])
                plan["faults"].append([w, rng.randrange(n + 2), rng.choice(["boom", "int", "os", "val", "rt", "mem", "zero", "key", "crash", "crash"])])
        if r > 0.35:
            for _ in range(rng.choice([1, 1, 2])):
                plan["io"].append([rng.randrange(n + 5), rng.choice(["enospc", "eio", "torn", "short", "crash"])])
        if rng.random() < 0.1:
            plan["faults"], plan["io"] = [], []
        if rng.random() < 0.5:
            plan["second"] = dict(n=rng.randrange(1, n + 2), keys=rng.choice([plan["keys"], ["a"], ["q", "r"]]),
                                  hold=int(rng.random() < 0.6))
        return plan

    def execute(self, plan, res):
        with fsim.FS(plan["io"] if plan["out"] else []) as fs:
            self.one(plan, res, fs, first=True)

    # ------------------------------------------------------------------
    def one(self, plan, res, fs, first):
        ts = self.ts
        out = os.path.join(fs.root, "a", "b") if plan["nested"] else os.path.join(fs.root, "o")
        path = os.path.join(out, "history.csv")
        keys, n = plan["keys"], plan["n"]
        faults = {}
        for w, i, k in plan["faults"]:
            faults.setdefault(w, {})[i] = k
        count = {}
        done = []              # (step, t, state) of completed pipeline.step calls
        saves, cbs = [], [[] for _ in plan["callbacks"]]
        raised = []
        crash_disk = []
        phase = ["start"]
        T0, DT = GRID[plan.get("grid", 0)]
        t1 = T0 + (n + plan["rem"]) * DT
        ntot = n + (1 if plan["rem"] else 0)

        def mon(step):
            v = {k: (i + 1) * 0.1 * (step + 1) + (1e-17 if i else 0) for i, k in enumerate(keys)}
            if plan["big"]:
                v = {k: x * 1.2345678901234567e200 for k, x in v.items()}
            if plan["np"]:
                import numpy as np
                v = {k: np.float64(x) for k, x in v.items()}
            if keys and plan.get("omit") and step and step % plan["omit"] == 0:
                del v[keys[step // plan["omit"] % len(keys)]]
            return v

        def crash(where):
            """The process dies here: what is on disk now is all that is left."""
            if not crash_disk:
                crash_disk.append((table(path), len(done), phase[0]))
                res.faults["crash"] += 1
                res.ev("crash", where)
                fs.kill()
            raise Crash(where)

        def visit(where):
            i = count.get(where, 0)
            count[where] = i + 1
            res.ev(where, i)
            if where == "step" and not crash_disk:
                self.check_disk(plan, table(path), done, mon, keys, len(done), "at the beginning of the next step", fs)
            k = faults.get(where, {}).get(i)
            if k == "crash":
                crash(where)
            if k:
                e = EXC[k](f"injected in {where}")
                raised.append(e)
                res.faults["user-" + where + "-" + k] += 1
                raise e

        def on_op(what):
            i = fs.n - 1
            if fs.plan.get(i) == "crash":
                crash("storage:" + what)
        fs.on_op = on_op
        fs.on_fault = lambda kind, what: (res.faults.update({f"{what}-{kind}": 1}), res.ev("io", kind, what))

        class P(ts.TimePipeline):
            def build(self, mesh):
                visit("build")

            def initial_state(self):
                visit("init")
                return ("s", 0)

            def step(self, state, t, dt):
                phase[0] = "step"
                visit("step")
                if state != ("s", len(done)):
                    raise Violation("state-chain", f"step {len(done) + 1} started from {state}")
                new = ("s", len(done) + 1)
                done.append((len(done) + 1, t + dt, new))
                phase[0] = "post"
                return new

            def monitor(self, state, step, t):
                visit("monitor")
                if state != ("s", step) or step != len(done):
                    raise Violation("monitor-args", f"monitor for step {step} got state {state}, {len(done)} steps done")
                return mon(step)

            def save(self, state, step, t, output_dir):
                visit("save")
                if not os.path.isdir(output_dir) or os.path.abspath(output_dir) != out:
                    raise Violation("save-dir", f"snapshot directory {output_dir!r} does not exist or is wrong")
                saves.append((step, t, state))

        if plan["adapt"]:
            def adapt_dt(self, state, step, t, dt):
                visit("adapt")
                return dt
            P.adapt_dt = adapt_dt

        def mkcb(i):
            def f(state, step, t):
                visit("callback")
                cbs[i].append((step, t, state))
            return f

        kw = dict(callbacks=[ts.Callback(mkcb(i), every=e) for i, e in enumerate(plan["callbacks"])])
        if plan["out"]:
            kw["output_dir"] = out
        cfg = ts.TimeConfig(dt=DT, t_end=t1, t_start=T0, save_every=plan["save_every"], print_every=plan["print_every"])
        ad = ts.AdaptiveDtConfig(dt_min=DT, dt_max=DT) if plan["adapt"] else None
        fired0 = len(fs.fired)
        exc = r = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = ts.run(P(), None, cfg, adaptive_dt=ad, **kw)
        except Violation:
            raise
        except BaseException as e:      # noqa
            exc = e
        hard = [f for f in fs.fired[fired0:] if f[0] != "short"]
        crashed = bool(crash_disk)
        res.steps += len(done)
        res.sim_time += len(done)
        cad = 0 < sum(1 for s in range(1, n + 1) if s % plan["save_every"] == 0) < n
        if len(done) >= 2 and (raised or crashed or fs.fired or cad):
            res.nontrivial = True
        res.states.add("|".join(map(str, (
            "crash" if crashed else type(exc).__name__, phase[0], sorted({f"{w}" for w, i, k in plan["faults"] if raised or crashed}),
            sorted({f[0] + f[1] for f in fs.fired[fired0:]}), cad, len(plan["callbacks"]), min(len(done), 3),
            bool(plan["out"]), first))))
        D = len(done)
        # -------------------------------------------------------- verdicts
        if exc is None:
            if raised or crashed:
                raise Violation("failure-swallowed", f"run returned although {raised or 'a crash'} was raised")
            self.complete(plan, r, done, saves, cbs, mon, keys, ntot, T0, path)
        else:
            if not (raised or crashed or hard):
                raise exc
            if raised and not crashed:
                chain, e = [], exc
                while e is not None and len(chain) < 20:
                    chain.append(e)
                    e = e.__cause__ or e.__context__
                if not any(x is y for x in chain for y in raised):
                    raise Violation("failure-replaced", f"run raised {exc!r}, user code raised {raised[0]!r}")
            disk = crash_disk[0][0] if crashed else table(path)
            dn = crash_disk[0][1] if crashed else D
            inpost = (crash_disk[0][2] if crashed else phase[0]) == "post"
            if plan["out"]:
                need = dn - (1 if inpost or hard else 0)
                if hard and not crashed:
                    need = max(0, need)
                if not (hard and disk is None) and (dn > 0 or (disk is not None and disk[0])):
                    self.check_disk(plan, disk, done[:dn], mon, keys, need,
                                    "after the crash" if crashed else "after the failure", fs, torn_ok=bool(hard) or crashed)
            # what was delivered before the failure must be a prefix of the schedule
            wants = self.want_saves(plan, ntot)
            got = [s[0] for s in saves]
            if got != wants[:len(got)]:
                raise Violation("snapshots", f"snapshots at steps {got} before the failure, schedule {wants}")
            for i, e in enumerate(plan["callbacks"]):
                w = [s for s in range(1, ntot + 1) if s % e == 0]
                g = [s[0] for s in cbs[i]]
                if g != w[:len(g)]:
                    raise Violation("callbacks", f"callback {i} (every {e}) called at steps {g}")
        # ------------------------------------------------------ second run
        sec = plan.get("second") if first else None
        if sec and plan["out"]:
            fs.plan = {}
            fs.pending_fail = None
            held = exc if sec["hold"] else None
            del exc, r
            if held is None:
                gc.collect()
            p2 = dict(plan, n=sec["n"], keys=sec["keys"], faults=[], io=[], second=None)
            self.one(p2, res, fs, first=False)
            held = None
            raised.clear()
            gc.collect()
            hdr, rows, tail = table(path) or ([], [], "")
            want = sec["n"] + (1 if plan["rem"] else 0)
            if hdr != ["step", "time"] + sec["keys"] or len(rows) != want or tail:
                raise Violation("rerun-table", f"after a rerun into the same directory the table has header {hdr}, "
                                f"{len(rows)} rows instead of {want}, tail {tail[:80]!r}")
            res.probes["rerun-after-failure"] += 1

    @staticmethod
    def want_saves(plan, ntot):
        if not plan["out"]:
            return []
        w = [0] + [s for s in range(1, ntot + 1) if s % plan["save_every"] == 0]
        if w[-1] != ntot:
            w.append(ntot)
        return w

    @staticmethod
    def check_disk(plan, tab, done, mon, keys, need, when, fs, torn_ok=False):
        if not plan["out"]:
            return
        if tab is None:
            if need or not torn_ok:
                raise Violation("table-missing", f"no history table {when}, {len(done)} steps done")
            return
        hdr, rows, tail = tab
        if hdr and hdr != ["step", "time"] + keys:
            raise Violation("table-header", f"header {hdr} {when}")
        if not hdr and (need or not torn_ok):
            raise Violation("table-header", f"no header {when}, {len(done)} steps done")
        if tail and not torn_ok:
            raise Violation("table-torn", f"incomplete last line {tail[:60]!r} {when}")
        if len(rows) < need:
            raise Violation("row-lost", f"{len(rows)} rows on disk {when}, {need} steps were completed before")
        if len(rows) > len(done):
            raise Violation("row-invented", f"{len(rows)} rows on disk {when}, only {len(done)} steps done")
        for (step, t, st), row in zip(done, rows):
            v = mon(step)
            want = [float(step), t] + [float(v[k]) if k in v else None for k in keys]
            try:
                got = [float(x) for x in row]
            except ValueError:
                raise Violation("row-wrong", f"row {row} {when}")
            T0, DT = GRID[plan.get("grid", 0)]
            if len(got) != len(want) or abs(got[1] - t) > 64 * EPS * (abs(T0) + (len(done) + 1) * DT) or any(
                    b is not None and far(a, b) for i, (a, b) in enumerate(zip(got, want)) if i != 1):
                raise Violation("row-wrong", f"row {row} {when}, expected {want}")

    def complete(self, plan, r, done, saves, cbs, mon, keys, ntot, T0, path):
        n = len(done)
        DT = GRID[plan.get("grid", 0)][1]
        tol = 64 * EPS * (abs(T0) + (n + 1) * DT)
        if n != ntot or r.n_steps != ntot:
            raise Violation("step-count", f"{n} steps, n_steps {r.n_steps}, expected {ntot}")
        h = r.history
        if list(h.keys())[:2] != ["step", "time"] or set(h) != {"step", "time", *keys}:
            raise Violation("history-keys", f"{list(h)}")
        if [int(x) for x in h["step"]] != list(range(n + 1)):
            raise Violation("history-steps", f"{h['step']}")
        for i, t in enumerate(h["time"]):
            w = T0 if i == 0 else done[i - 1][1]
            if abs(t - w) > tol:
                raise Violation("history-times", f"entry {i} is {t!r}, step ended at {w!r}")
        for k in keys:
            if len(h[k]) != n + 1:
                raise Violation("history-values", f"{k} has {len(h[k])} entries for {n + 1} records")
            for s in range(n + 1):
                v = mon(s)
                if k in v and float(h[k][s]) != float(v[k]):
                    raise Violation("history-values", f"{k}: {h[k]}")
        if plan["out"]:
            tab = table(path)
            self.check_disk(plan, tab, done, mon, keys, n, "after the run", None)
            for s in range(1, n + 1):
                for j, k in enumerate(keys):       # a value the monitor left out is the same in both records
                    a, b = float(tab[1][s - 1][j + 2]), float(h[k][s])
                    if a != b and (a == a or b == b):
                        raise Violation("table-history", f"step {s}, {k}: table {a!r}, history {b!r}")
        want = self.want_saves(plan, ntot)
        if [s[0] for s in saves] != want:
            raise Violation("snapshots", f"snapshots at steps {[s[0] for s in saves]}, expected {want}")
        for s, t, st in saves:
            w = T0 if s == 0 else done[s - 1][1]
            if st != ("s", s) or abs(t - w) > tol:
                raise Violation("snapshots", f"snapshot {s} holds {st} at {t!r}")
        for i, e in enumerate(plan["callbacks"]):
            if [s[0] for s in cbs[i]] != [s for s in range(1, n + 1) if s % e == 0]:
                raise Violation("callbacks", f"callback {i} (every {e}) called at steps {[s[0] for s in cbs[i]]} of {n}")
            for s, t, st in cbs[i]:
                if st != ("s", s) or abs(t - done[s - 1][1]) > tol:
                    raise Violation("callbacks", f"callback {i} at step {s} got {st}, t {t!r}")
        if r.final_state != ("s", n):
            raise Violation("result-state", f"{r.final_state}")


SCENARIOS = [Outputs()]
