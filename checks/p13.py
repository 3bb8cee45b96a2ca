"""P13 - distributed runs join once, gather by rank, and always leave cleanly."""
import contextlib
import importlib.util
import os
import sys

from sim import sched
from sim.core import REPO, Rebound, Scenario, Violation

RULE = ("A plan is N simulated processes, each with an environment and a program of join / role / gather / leave "
        "operations, a schedule of preemptions at every call into the runtime, and faults: a join, gather or shutdown "
        "that fails, a process that dies, a missing or partial environment. Non-trivial: at least two processes with a "
        "preemption that happened, or a fault that fired.")
STATE_MEASURE = "distinct (process count, sequence of (process, runtime call) events) histories"
TIME_UNIT = "runtime calls"
REAL = "feax.distributed.initialize / gather / is_coordinator / finalize, one private instance of the module per simulated process"
STUB = "the JAX multi-process runtime (join barrier, all-gather, shutdown, process index/count), with the documented semantics of jax 0.11"
ASSUMPTIONS = ["all processes call the same gathers in the same order with equal structures and shapes, as documented",
               "when a process dies or a collective fails, the runtime raises in all others that take part"]
CONFIG = dict(quick=dict(wall_s=25, runs=12000, shrink_s=15, plan_s=60),
              thorough=dict(wall_s=600, runs=10 ** 9, shrink_s=30, plan_s=60))


class Died(BaseException):
    """the simulated process is gone"""


class Boom(RuntimeError):
    pass


_cur = [None]           # world in use


class Env(dict):
    pass


class World:
    def __init__(self, plan, sim, res):
        self.plan, self.sim, self.res = plan, sim, res
        self.n = plan["n"]
        self.job = {}              # rank -> pid, joined processes
        self.expected = {}         # pid -> (addr, n, rank)
        self.waiting_join = {}
        self.broken = False
        self.rounds = {}           # (pid) -> number of gathers done
        self.slots = {}            # round -> {rank: leaves}
        self.events = []
        self.shutdowns = {}
        self.joined = {}
        self.left = set()
        self.dead = set()
        self.calls = {}
        self.hold = {}

    # -- helpers
    def me(self):
        t = self.sim.cur
        return int(t.name[1:])

    def event(self, what):
        pid = self.me()
        k = self.calls.get((pid, what), 0)
        self.calls[(pid, what)] = k + 1
        self.events.append((pid, what))
        self.res.ev(pid, what, k)
        self.sim.point(f"{pid}:{what}", "seam")
        for p, w, i, kind in self.plan["faults"]:
            if p == pid and w == what and i == k:
                self.res.faults[f"{what}-{kind}"] += 1
                self.res.ev("fault", pid, what, kind)
                if kind == "die":
                    self.dead.add(pid)
                    self.break_job()
                    raise Died()
                if kind == "int":
                    self.break_job()
                    raise KeyboardInterrupt()
                self.break_job() if what != "shutdown" else None
                raise {"err": Boom, "val": ValueError, "conn": ConnectionError, "os": OSError}[kind]("injected " + what)

    def break_job(self):
        self.broken = True
        self.sim.wake(lambda w: True)

    def wait_until(self, cond, what):
        while not cond():
            if self.broken:
                raise Boom(f"{what}: a peer process is gone")
            self.sim.block(what)

    # -- runtime calls
    def initialize(self, coordinator_address=None, num_processes=None, process_id=None, *a, **k):
        pid = self.me()
        self.event("join")
        if pid in self.joined:
            raise RuntimeError("distributed.initialize should only be called once.")
        self.waiting_join[pid] = (coordinator_address, num_processes, process_id)
        self.sim.wake(lambda w: w == "join")
        self.wait_until(lambda: sum(1 for v in self.waiting_join.values() if v[:2] == (coordinator_address, num_processes))
                        >= num_processes, "join")
        self.joined[pid] = (coordinator_address, num_processes, process_id)

    def shutdown(self):
        pid = self.me()
        self.shutdowns[pid] = self.shutdowns.get(pid, 0) + 1
        self.event("shutdown")
        if pid not in self.joined:
            # jax: shutdown without a running client is a no-op; some versions raise
            if self.plan["strict_shutdown"]:
                raise RuntimeError("distributed runtime is not initialized")
            return
        self.left.add(pid)
        del self.joined[pid]

    def process_index(self, *a, **k):
        pid = self.me()
        return self.joined[pid][2] if pid in self.joined else 0

    def process_count(self, *a, **k):
        pid = self.me()
        return self.joined[pid][1] if pid in self.joined else 1

    def allgather(self, tree, tiled=False):
        import jax
        import numpy as np
        pid = self.me()
        leaves, treedef = jax.tree.flatten(tree)
        self.event("gather")
        if pid not in self.joined:
            parts = {0: leaves}
            n = 1
        else:
            rank, n = self.joined[pid][2], self.joined[pid][1]
            r = self.rounds.get(pid, 0)
            self.rounds[pid] = r + 1
            slot = self.slots.setdefault(r, {})
            slot[rank] = [np.array(x) for x in leaves]
            self.sim.wake(lambda w: w == "gather")
            self.wait_until(lambda: len(slot) == n, "gather")
            parts = slot
        out = []
        for i in range(len(leaves)):
            xs = [np.asarray(parts[k][i]) for k in range(n)]
            if tiled and xs[0].ndim:
                out.append(np.concatenate(xs, axis=0))
            elif n == 1 and tiled:
                out.append(xs[0])
            else:
                out.append(np.stack(xs, axis=0))
        return jax.tree.unflatten(treedef, out)


class EnvProxy:
    """os.environ of the running simulated process."""
    def _d(self):
        w = _cur[0]
        return w.envs[w.me()]

    def __getitem__(self, k):
        return self._d()[k]

    def __setitem__(self, k, v):
        self._d()[k] = v

    def __delitem__(self, k):
        del self._d()[k]

    def __contains__(self, k):
        return k in self._d()

    def __iter__(self):
        return iter(self._d())

    def __len__(self):
        return len(self._d())

    def get(self, k, default=None):
        return self._d().get(k, default)

    def pop(self, k, *a):
        return self._d().pop(k, *a)

    def setdefault(self, k, d=None):
        return self._d().setdefault(k, d)

    def update(self, *a, **k):
        self._d().update(*a, **k)

    def keys(self):
        return self._d().keys()

    def values(self):
        return self._d().values()

    def items(self):
        return self._d().items()

    def copy(self):
        return dict(self._d())


class Nodes(Scenario):
    prop, name = "P13", "nodes"
    shrink_lists = ("faults", "sched", "rounds")

    def setup(self):
        import jax
        import jax.experimental.multihost_utils as mh
        import numpy as np
        self.jax, self.mh, self.np = jax, mh, np
        path = os.path.join(REPO, "feax", "distributed", "__init__.py")
        self.path = path
        self.code = compile(open(path).read(), path, "exec")

    def module(self):
        """A private instance of feax.distributed, as every real process has."""
        import types
        m = types.ModuleType("feax.distributed")
        m.__file__ = self.path
        m.__package__ = "feax.distributed"
        m.__path__ = [os.path.dirname(self.path)]
        exec(self.code, m.__dict__)
        return m

    def gen(self, rng):
        n = rng.choice([1, 2, 2, 3, 3, 4, 6])
        mode = rng.choice(["job"] * 8 + ["alone", "empty"])
        plan = dict(n=n, mode=mode, port=rng.choice([None, "1234", "5000"]), addr=rng.choice(["10.0.0.1", "head"]),
                    ranks=rng.sample(range(n), n), strict_shutdown=int(rng.random() < 0.3),
                    rounds=[rng.choice(["vec", "scalar", "mat", "tree", "tuple", "int", "empty", "jax", "bool"])
                            for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))],
                    finalize=[rng.choice([1, 1, 1, 2, 0]) for _ in range(n)],
                    before=[int(rng.random() < 0.25) for _ in range(n)], rejoin=int(rng.random() < 0.15),
                    faults=[], sched=[])
        if rng.random() < 0.45:
            for _ in range(rng.choice([1, 1, 2])):
                what = rng.choice(["join", "gather", "gather", "shutdown", "shutdown"])
                plan["faults"].append([rng.randrange(n), what, rng.randrange(3),
                                       rng.choice(["err", "val", "conn", "os", "die"] if what != "shutdown"
                                                  else ["err", "val", "conn", "os", "int"])])
        if rng.random() < 0.06 and mode == "job":
            plan["drop"] = [rng.randrange(n), rng.choice(["JAX_NUM_PROCESSES", "JAX_PROCESS_ID"])]
        total = n * (len(plan["rounds"]) * 2 + 4)
        for _ in range(rng.randrange(0, min(12, total) + 1)):
            plan["sched"].append([rng.choice(["seam", "seam", "pick"]), rng.randrange(total), rng.randrange(1, n + 1)])
        return plan

    def value(self, kind, rank, r):
        np = self.np
        b = 100.0 * rank + r
        v = np.array([b, b + 0.5, -b])
        return {"vec": v, "scalar": b, "mat": np.outer(v, [1.0, 2.0]), "tree": {"z": v, "a": np.array(rank), "l": [v * 2]},
                "tuple": (v, np.array([rank], dtype=np.int32)), "int": np.array([[rank, r]], dtype=np.int64),
                "empty": np.zeros((0, 3)), "jax": self.jax.numpy.asarray(v, dtype="float32"),
                "bool": np.array([rank % 2 == 0, True])}[kind]

    def execute(self, plan, res):
        jax, mh, np = self.jax, self.mh, self.np
        n = plan["n"]
        sim = sched.Sim(plan["sched"])
        w = World(plan, sim, res)
        w.envs = []
        for p in range(n):
            e = {"PATH": "/bin"}
            if plan["mode"] != "alone":
                e["JAX_COORD_ADDR"] = plan["addr"] if plan["mode"] == "job" else ""
                if plan["port"]:
                    e["JAX_COORD_PORT"] = plan["port"]
                e["JAX_NUM_PROCESSES"] = str(n)
                e["JAX_PROCESS_ID"] = str(plan["ranks"][p])
                d = plan.get("drop")
                if d and d[0] == p:
                    e.pop(d[1])
            w.envs.append(e)
        got = {p: [] for p in range(n)}        # gather results
        roles = {}
        outcome = {}

        def program(p):
            # import the module before anything else, like every process
            m = self.module()
            rank = plan["ranks"][p] if plan["mode"] == "job" else 0

            def leave(times, when):
                for _ in range(times):
                    before = w.joined.get(p)
                    nfin = w.calls.get((p, "shutdown"), 0)
                    try:
                        m.finalize()
                    except KeyboardInterrupt:
                        raise
                    except Exception as e:
                        raise Violation("leave-failed", f"finalize() {when} raised {e!r} on process {p}")
                    if before is not None and w.calls.get((p, "shutdown"), 0) == nfin:
                        raise Violation("not-left", f"finalize() {when} did not shut down the runtime of joined process {p}")

            def run():
                if plan["before"][p]:
                    leave(1, "before joining")
                try:
                    r = m.initialize()
                except Died:
                    raise
                except Exception as e:
                    leave(max(1, plan["finalize"][p]), "after a failed join")
                    return ("join-failed", repr(e)[:80])
                want = plan["mode"] == "job"
                if r is not want:
                    raise Violation("join-result", f"initialize() returned {r!r} with JAX_COORD_ADDR={w.envs[p].get('JAX_COORD_ADDR')!r}")
                if want and p not in w.joined:
                    raise Violation("join-result", f"initialize() returned True but process {p} did not join")
                if not want and w.calls.get((p, "join"), 0):
                    raise Violation("join-uninvited", f"process {p} joined without a configured coordinator")
                if want:
                    addr = f"{plan['addr']}:{plan['port'] or '1234'}"
                    if w.joined[p] != (addr, n, rank):
                        raise Violation("join-arguments", f"process {p} joined as {w.joined[p]}, expected {(addr, n, rank)}")
                roles[p] = m.is_coordinator()
                try:
                    for r_, kind in enumerate(plan["rounds"]):
                        got[p].append(m.gather(self.value(kind, rank, r_)))
                    return ("done",)
                except Died:
                    raise
                except Violation:
                    raise
                except Exception as e:
                    return ("gather-failed", repr(e)[:80])
                finally:
                    if p not in w.dead:
                        leave(plan["finalize"][p], "at the end")
                        if plan["finalize"][p] and plan["rejoin"] and plan["mode"] != "job":
                            if m.initialize() is not False:
                                raise Violation("join-result", "second initialize() without coordinator did not return False")
            try:
                outcome[p] = run()
            finally:
                if outcome.get(p, ("",))[0] != "done":
                    w.break_job()          # the runtime notices that a peer is gone

        for p in range(n):
            sim.spawn(f"p{p}", lambda p=p: program(p))
        saved = (jax.distributed.initialize, jax.distributed.shutdown, jax.process_index, jax.process_count,
                 mh.process_allgather, os.environ)
        _cur[0] = w
        real_mod = sys.modules.get("feax.distributed")
        try:
            jax.distributed.initialize, jax.distributed.shutdown = w.initialize, w.shutdown
            jax.process_index, jax.process_count = w.process_index, w.process_count
            mh.process_allgather = w.allgather
            os.environ = EnvProxy()
            with Rebound(zip(saved, (w.initialize, w.shutdown, w.process_index, w.process_count, w.allgather, os.environ))):
                sim.run()
        finally:
            (jax.distributed.initialize, jax.distributed.shutdown, jax.process_index, jax.process_count,
             mh.process_allgather, os.environ) = saved
        fired = bool(res.faults) or bool(plan.get("drop"))
        for t in sim.tasks:
            p = int(t.name[1:])
            e = t.exc
            if e is None:
                continue
            if isinstance(e, Violation):
                raise e
            if isinstance(e, (Died, KeyboardInterrupt)):
                outcome[p] = (type(e).__name__,)
                continue
            if isinstance(e, Exception) and not fired:
                raise Violation("exception", f"process {p}: {e!r}")
            outcome[p] = ("exc", repr(e)[:80])
        res.sim_time += len(w.events)
        res.steps += len(w.events)
        # ---- history checks
        if plan["mode"] == "job":
            j = [p for p in roles if p in roles]
            heads = [p for p in roles if roles[p]]
            if len(roles) == n and [plan["ranks"][p] for p in heads] != [0]:
                raise Violation("coordinator", f"coordinators: ranks {[plan['ranks'][p] for p in heads]}")
            for p in roles:
                if not isinstance(roles[p], (bool, np.bool_)) or roles[p] != (plan["ranks"][p] == 0):
                    raise Violation("coordinator", f"rank {plan['ranks'][p]} says is_coordinator()={roles[p]!r}")
        elif any(v is not True for v in roles.values()):
            raise Violation("coordinator", "a single process must be its own coordinator")
        for p in got:
            for r_, val in enumerate(got[p]):
                kind = plan["rounds"][r_]
                ranks = range(n) if plan["mode"] == "job" else [0]
                leaves, td = jax.tree.flatten(self.value(kind, 0, r_))
                exp = [np.stack([np.asarray(jax.tree.leaves(self.value(kind, k, r_))[i]) for k in ranks])
                       for i in range(len(leaves))]
                gl, gd = jax.tree.flatten(val)
                if gd != td:
                    raise Violation("gather-structure", f"gather {r_} of {kind} on process {p} returned structure {gd}")
                for a, b in zip(gl, exp):
                    a = np.asarray(a)
                    if a.shape != b.shape:
                        raise Violation("gather-shape", f"gather {r_} of {kind} on process {p}: shape {a.shape}, expected {b.shape}")
                    if not np.array_equal(a, b):
                        raise Violation("gather-values", f"gather {r_} of {kind} on process {p}: {a.tolist()} expected {b.tolist()}")
        if not fired:
            for p in range(n):
                if outcome.get(p, ("?",))[0] != "done" or len(got[p]) != len(plan["rounds"]):
                    raise Violation("not-finished", f"process {p} ended with {outcome.get(p)} after {len(got[p])} gathers without any fault")
                if plan["mode"] == "job" and plan["finalize"][p] and p not in w.left:
                    raise Violation("not-left", f"process {p} never left the job")
        else:
            for p in range(n):
                o = outcome.get(p)
                if o and o[0] == "done" and len(got[p]) != len(plan["rounds"]):
                    raise Violation("failure-hidden", f"process {p}: a failed gather was not reported")
        ev = tuple(w.events)
        res.states.add(hash((n, ev)))
        res.nontrivial = (n > 1 and sim.switches > 0) or bool(res.faults)
        res.probes["switches"] += sim.switches
        res.probes["job-complete"] += all(outcome.get(p, ("",))[0] == "done" for p in range(n))
        res.probes["mode-" + plan["mode"]] += 1


SCENARIOS = [Nodes()]
