"""P16 - profiling reports the time that really passed, failures included."""
import math
import re

import numpy as np

from checks import femsys as fs
from sim import directsys as ds
from sim import vclock
from sim.core import Scenario, Violation

RULE = ("A plan is a sequence of host work, device dispatches, clock jumps and profiled blocks that nest, overlap and "
        "fail, of timed functions with asynchronous results, and of Newton solves profiled with the real solvers. "
        "Non-trivial: at least two measurements were compared, or a failure was injected.")
STATE_MEASURE = "distinct (operation, nesting depth, pending work, failure, number of measurements) tuples"
TIME_UNIT = "virtual seconds"
REAL = "feax.profiler (profile, time_fn, profile_solver, profile_solver_py), feax assembly and direct solvers in profiled Newton solves"
STUB = "time.* clocks, jax.effects_barrier / jax.live_arrays and the device queue behind them (virtual in-order device)"
ASSUMPTIONS = ["durations are dyadic, so sums are exact; recorded values may differ by 1e-6 relative (integer-nanosecond clocks)",
               "work whose outputs were all dropped cannot be waited for and is not counted"]
CONFIG = dict(quick=dict(wall_s=35, runs=20000, shrink_s=20, plan_s=100),
              thorough=dict(wall_s=600, runs=10 ** 9, shrink_s=40, plan_s=100))


class Boom(Exception):
    pass


class Pending:
    """A value still being computed on the virtual device."""

    def __init__(self, w, d, fails=False):
        self.w, self.ready_at, self.fails = w, w.clock.dispatch(d), fails
        self.shape, self.dtype, self.nbytes = (2,), np.dtype("float64"), 16

    def block_until_ready(self):
        self.w.clock.sleep_until(self.ready_at)
        if self.fails:
            raise Boom("asynchronous computation failed")
        return self

    def is_ready(self):
        return self.w.clock.mono >= self.ready_at

    def is_deleted(self):
        return False

    def delete(self):
        pass


class World:
    def __init__(self, plan):
        self.clock = vclock.Clock(plan.get("start", 1024.0))
        self.live = []
        self.acc = None
        self.effects = 0.0            # when the dispatched side effects are done
        self.barrier_fails = 0

    def settle(self):
        """When everything still visible is done."""
        return max([self.clock.mono, self.effects] + [p.ready_at for p in self.live])


def near(a, b):
    return abs(a - b) <= 1e-8 + 1e-9 * abs(b)


class Profiling(Scenario):
    prop, name = "P16", "profiling"
    shrink_lists = ("ops",)

    def setup(self):
        vclock.install()
        ds.setup()
        import jax
        import feax.profiler as pf
        self.pf, self.jax = pf, jax
        self.barrier, self.live_arrays = jax.effects_barrier, jax.live_arrays
        me = self
        self.world = None

        def effects_barrier():
            w = me.world
            if w is not None:
                w.clock.sleep_until(w.effects)
                if w.barrier_fails:
                    w.barrier_fails -= 1
                    raise Boom("side effect failed")
            return me.barrier()

        def live_arrays(platform=None):
            if me.world is not None:
                return list(me.world.live)
            return me.live_arrays(platform)
        jax.effects_barrier, jax.live_arrays = effects_barrier, live_arrays
        for m in (pf,):                                   # imported by name
            if getattr(m, "effects_barrier", None) is self.barrier:
                m.effects_barrier = effects_barrier
            if getattr(m, "live_arrays", None) is self.live_arrays:
                m.live_arrays = live_arrays
        self.probs = {}

    # ----------------------------------------------------------- generation
    def gen(self, rng):
        d = lambda: rng.choice([0.0, 2.0 ** -10, 0.25, 0.5, 1.0, 3.0, 64.0, rng.randrange(1, 4096) / 1024])     # noqa
        ops, opened, n = [], [], 0
        for _ in range(rng.choice([3, 6, 10, 16])):
            k = rng.choice(["work", "work", "enter", "enter", "exit", "exit", "dispatch", "effect", "drop", "jump",
                            "time_fn", "solver", "newton"])
            if k == "newton" and rng.random() < 0.8:
                k = "work"
            if k == "work":
                ops.append(dict(op="work", d=d()))
            elif k == "enter":
                ops.append(dict(op="enter", id=n, label=rng.choice(["a", "assembly", "x" * 40, "same", "", None]),
                                block=rng.choice([None, None, 1, 1, 0])))
                opened.append(n)
                n += 1
            elif k == "exit" and opened:
                i = opened.pop(rng.randrange(len(opened)) if rng.random() < 0.3 else -1)
                ops.append(dict(op="exit", id=i, fail=rng.choice([0, 0, 0, 1, 2]),
                                barrier=1 if rng.random() < 0.08 else 0))
            elif k == "dispatch":
                ops.append(dict(op="dispatch", d=d(), fails=1 if rng.random() < 0.12 else 0))
                if rng.random() < 0.3:
                    ops.append(dict(op="dispatch", d=d(), fails=0))
            elif k == "effect":
                ops.append(dict(op="effect", d=d()))
            elif k == "drop":
                ops.append(dict(op="drop"))
            elif k == "jump":
                ops.append(dict(op="jump", d=rng.choice([-3600.0, 86400.0, -1.0, 0.5])))
            elif k == "time_fn":
                runs, warm = rng.choice([(1, 1), (1, 0), (3, 1), (2, 0), (4, 2), (0, 1), (1, 3)])
                ops.append(dict(op="time_fn", runs=runs, warm=warm, label=rng.choice([None, None, "lab", ""]),
                                host=[d() for _ in range(runs + warm)], dev=[d() for _ in range(runs + warm)],
                                fail=rng.choice([None] * 5 + [rng.randrange(max(1, runs + warm))]),
                                jump=rng.choice([None, None, None, -3600.0, 0.5]),
                                afail=1 if rng.random() < 0.1 else 0, dflt=1 if (runs, warm) == (1, 1) else 0,
                                tree=rng.randrange(3), partial=rng.random() < 0.2))
            elif k == "solver":
                ops.append(dict(op="solver", label=rng.choice([None, "cg"]), jump=rng.choice([None, None, None, -3600.0, 0.5]), host=d(), dev=d(), fail=rng.choice([0, 0, 0, 1])))
            elif k == "newton":
                ops.append(dict(op="newton", fam=rng.choice(list(fs.FAMILIES)), bc=rng.choice("ABC"), s=rng.randrange(4),
                                opt=rng.choice([None, "auto", "spsolve", "cholmod", "umfpack"]),
                                max_iter=rng.choice([None, None, 1, 2, 50]), tol=rng.choice([None, 1e-8, 1e-6, 1e3, 0.3, 1e-1, 1e-2, 1e-3, 1e-4]),
                                tolk=rng.choice([None, None, 0, 1, 1, 2, 3]),
                                jump=rng.choice([None, None, [rng.randrange(4), rng.choice([-3600.0, 86400.0, 0.5])]]),
                                d=[d() for _ in range(5)], fail=rng.choice([None] * 4 + [rng.randrange(4)])))
        for i in reversed(opened):
            ops.append(dict(op="exit", id=i, fail=0, barrier=0))
        return dict(ops=ops, start=rng.choice([0.0, 1024.0, 2.0 ** 30]))

    def directed(self):
        out = []
        for order in ((1, 0), (0, 1), (1, 1, 0), (0, 1, 0)):          # a failed value among pending ones
            ops = [dict(op="enter", id=0, label="a", block=None)]
            ops += [dict(op="dispatch", d=1.0 + i, fails=f) for i, f in enumerate(order)]
            out.append(dict(ops=ops + [dict(op="exit", id=0, fail=0, barrier=0)], start=1024.0))
        for fam in fs.FAMILIES:
            out.append(dict(ops=[dict(op="newton", fam=fam, bc="A", s=1, opt=None, max_iter=None, tol=None,
                                      d=[1.0, 0.5, 0.25, 2.0, 4.0], fail=None)], start=0.0))
            for k in range(3):
                out.append(dict(ops=[dict(op="newton", fam=fam, bc=bc, s=2, opt=None, max_iter=None, tol=None, tolk=k,
                                          d=[1.0, 0.5, 0.25, 2.0, 4.0], fail=None) for bc in "AB"], start=0.0))
        return out

    # ------------------------------------------------------------ execution
    def execute(self, plan, res):
        self.world = w = World(plan)
        with vclock.active(w.clock):
            try:
                self.body(plan, res, w)
            finally:
                self.world = None
        res.sim_time += w.clock.mono - plan.get("start", 1024.0)

    def body(self, plan, res, w):
        pf, ctx, checked = self.pf, {}, 0
        for n, op in enumerate(plan["ops"]):
            k = op["op"]
            res.steps += 1
            if k == "work":
                w.clock.work(op["d"])
            elif k == "dispatch":
                w.live.append(Pending(w, op["d"], bool(op["fails"])))
            elif k == "effect":
                w.effects = w.clock.dispatch(op["d"])
            elif k == "drop":
                w.live.clear()
            elif k == "jump":
                w.clock.jump(op["d"])
                res.faults["clock-jump"] += 1
            elif k == "enter":
                kw = {}
                if op["label"] is not None:
                    kw["label"] = op["label"]
                if op["block"] is not None:
                    kw["block_until_ready"] = bool(op["block"])
                cm = pf.profile(**kw)
                t0 = w.clock.mono
                r = cm.__enter__()
                if w.clock.mono != t0:
                    t0 = w.clock.mono        # entering may wait for earlier work; that is not profiled
                ctx[op["id"]] = (cm, r, t0, op)
            elif k == "exit":
                if op["id"] not in ctx:
                    continue
                checked += 1
                cm, r, t0, en = ctx.pop(op["id"])
                block = en["block"] is None or bool(en["block"])
                if op["barrier"]:
                    w.barrier_fails = 1
                end = w.settle() if block else w.clock.mono
                exc = Boom("body") if op["fail"] == 1 else KeyboardInterrupt() if op["fail"] == 2 else None
                raised = None
                swallowed = False
                try:
                    swallowed = bool(cm.__exit__(type(exc) if exc else None, exc, None))
                except BaseException as e:      # noqa
                    raised = e
                bf = op["barrier"] and block
                if op["barrier"] and not block and w.barrier_fails:
                    w.barrier_fails = 0
                want = (op["label"] if op.get("label") else None)
                if exc is not None or bf:
                    res.faults["block-raises" if exc else "barrier-raises"] += 1
                if exc is not None and swallowed:
                    raise Violation("exception-swallowed", f"op {n}: the profiled block's {type(exc).__name__} did not reach the caller")
                if exc is not None and raised is not None and not bf and raised is not exc:
                    raise Violation("exception-changed", f"op {n}: {type(exc).__name__} became {raised!r}")
                if bf and exc is None and not isinstance(raised, Boom):
                    raise Violation("exception-swallowed", f"op {n}: the failing side effect was not reported")
                if not bf and exc is None and raised is not None:
                    raise Violation("profiling-raised", f"op {n}: leaving the block raised {raised!r}")
                self.record(n, r, [(en["label"] if en["label"] is not None else "default", end - t0)], w, partial=bf)
                if bf:                       # the wait ended early; nothing more is known about the clock
                    pass
                res.states.add(("exit", len(ctx), block, bool(w.live), op["fail"], bf).__repr__())
                res.ev("exit", n, repr(r.records), repr(raised))
            elif k == "time_fn":
                checked += self.time_fn(n, op, res, w)
            elif k == "solver":
                checked += self.solver(n, op, res, w)
            elif k == "newton":
                checked += self.newton(n, op, res, w)
            res.probes[k] += 1
        res.nontrivial = checked >= 2 or bool(res.faults)

    def record(self, n, r, want, w, partial=False):
        got = [(x.label, x.wall_time_s) for x in r.records]
        if len(got) != len(want):
            raise Violation("record-missing", f"op {n}: {len(got)} timing records, {len(want)} measurements were made")
        for (gl, gt), (wl, wt) in zip(got, want):
            if gl != wl:
                raise Violation("wrong-label", f"op {n}: record labelled {gl!r}, expected {wl!r}")
            if not partial and not near(gt, wt):
                raise Violation("wrong-duration", f"op {n}: {gl!r} reported {gt!r} s, {wt!r} s passed")
        if not near(r.total_s, sum(t for _, t in got)):
            raise Violation("wrong-total", f"op {n}: total {r.total_s!r} of {got}")
        acc = w.acc if w.acc is not None else type(r)()
        w.acc = acc                                  # a session's accumulated result, labels repeated
        acc.records.extend(r.records)
        tot = math.fsum(x.wall_time_s for x in acc.records)
        if not near(acc.total_s, tot):
            raise Violation("wrong-total", f"op {n}: accumulated total {acc.total_s!r}, records sum to {tot!r}")
        text = r.summary()
        for (gl, gt) in got:
            if not gl.strip():
                continue
            m = [float(x) for x in re.findall(r"^\s*" + re.escape(gl) + r"\s+([0-9.]+) s\s*$", text, re.M)]
            if not any(abs(x - gt) <= 1e-3 + 1e-6 * abs(gt) for x in m):
                raise Violation("wrong-summary", f"op {n}: summary does not report {gl!r} {gt!r}:\n{text}")

    def result(self, w, i, op, host, dev, fails=False):
        w.clock.work(host)
        if op.get("jump"):
            w.clock.jump(op["jump"])
        p = Pending(w, dev, fails)
        if not op.get("partial"):
            w.live.append(p)
        return [p, {"u": p, "k": 3}, (np.zeros(2), [p])][op.get("tree", 0)], p

    def time_fn(self, n, op, res, w):
        pf = self.pf
        calls, durs = [], []
        args, kws = (object(),), {"q": object()}
        total = op["runs"] + op["warm"]

        def fn(*a, **k):
            i = len(calls)
            t = w.clock.mono
            if a != args or k != kws:
                raise Violation("wrong-arguments", f"op {n}: the function did not get its own arguments")
            if i >= total:
                raise Violation("extra-call", f"op {n}: function called {i + 1} times, asked for {total}")
            if op["fail"] == i:
                calls.append(None)
                w.clock.work(op["host"][i])
                if op["afail"]:
                    out, p = self.result(w, i, op, 0.0, op["dev"][i], True)
                    return out
                raise Boom("function failed")
            out, p = self.result(w, i, op, op["host"][i], op["dev"][i])
            calls.append(out)
            durs.append(p.ready_at - t)
            return out
        kw = dict(kws)
        if op["label"] is not None:
            kw["label"] = op["label"]
        if not op["dflt"]:
            kw.update(n_runs=op["runs"], warmup=op["warm"])
        fails = op["fail"] is not None and op["fail"] < total
        try:
            out, r = pf.time_fn(fn, *args, **kw)
        except Boom as e:
            res.faults["function-raises"] += 1
            if not fails:
                raise Violation("profiling-raised", f"op {n}: time_fn raised {e!r}")
            res.ev("time_fn", n, "raised", len(calls))
            return 1
        if fails:
            raise Violation("exception-swallowed", f"op {n}: time_fn returned although call {op['fail']} failed")
        if len(calls) != total:
            raise Violation("missing-call", f"op {n}: {len(calls)} calls, asked for {total}")
        if out is not calls[-1]:
            raise Violation("wrong-result", f"op {n}: time_fn did not return the result of the last call")
        lab = op["label"] if op["label"] is not None else "fn"
        want = [(lab if op["runs"] == 1 else f"{lab}[{i}]", durs[op["warm"] + i]) for i in range(op["runs"])]
        if op["runs"]:
            self.record(n, r, want, w)
        elif r.records:
            raise Violation("record-missing", f"op {n}: records of runs that were not timed")
        res.states.add(("time_fn", op["runs"], op["warm"], op["tree"]).__repr__())
        res.ev("time_fn", n, repr(r.records))
        return max(1, op["runs"])

    def solver(self, n, op, res, w):
        pf = self.pf
        arg, outs = object(), []

        def solve(a):
            if a is not arg:
                raise Violation("wrong-arguments", f"op {n}: the solver did not get its own arguments")
            if op["fail"]:
                raise Boom("solver failed")
            t = w.clock.mono
            out, p = self.result(w, 0, op, op["host"], op["dev"])
            outs.append((out, p.ready_at - t))
            return out
        kw = {} if op["label"] is None else dict(label=op["label"])
        try:
            out, prof = pf.profile_solver(solve, arg, **kw)
        except Boom:
            if not op["fail"]:
                raise Violation("profiling-raised", f"op {n}")
            res.faults["function-raises"] += 1
            return 1
        if op["fail"]:
            raise Violation("exception-swallowed", f"op {n}: profile_solver returned although the solver failed")
        if len(outs) != 1 or out is not outs[0][0]:
            raise Violation("wrong-result", f"op {n}: profile_solver did not return the solver's result")
        if not near(prof.wall_time_s, outs[0][1]):
            raise Violation("wrong-duration", f"op {n}: profile_solver reported {prof.wall_time_s!r}, {outs[0][1]!r} passed")
        if prof.label != (op["label"] or "solver"):
            raise Violation("wrong-label", f"op {n}: {prof.label!r}")
        res.ev("solver", n, prof.wall_time_s)
        return 1

    # ------------------------------------------------- real Newton, profiled
    def norms(self, R, op, p, rows, g):
        """Residual norms of the first Newton iterates of the reference model."""
        key = ("norms", op["fam"], op["bc"], op["s"])
        if key not in self.probs:
            import scipy.sparse as sp
            import scipy.sparse.linalg as spl
            u, out, free = np.array(g), [], np.setdiff1d(np.arange(R.n), rows)
            for _ in range(4):
                r, J = R.residual(u, p, jac=True)
                out.append(float(np.linalg.norm(np.asarray(r)[free])))
                J = sp.csr_matrix(J)[free][:, free]
                u[free] -= spl.spsolve(J.tocsc(), np.asarray(r)[free])
            self.probs[key] = out
        return self.probs[key]

    def newton(self, n, op, res, w):
        import jax.numpy as jnp
        import feax as fe
        key = (op["fam"], op["bc"])
        if key not in self.probs:
            pr = fs.build(op["fam"], "a")
            self.probs[key] = (pr, fs.make_bc(pr, op["fam"], op["bc"]), fs.Ref(op["fam"], "a"))
        pr, bc, R = self.probs[key]
        p = fs.params(R, dict(s=op["s"]))
        rows, vals = R.bc(op["bc"])
        g = np.zeros(R.n)
        g[rows] = vals
        kw = {}
        opt = op["opt"]
        if opt == "cholmod" and not R.f["sym"]:
            opt = "umfpack"
        if opt:
            kw["solver_options"] = fe.DirectSolverOptions(solver=opt)
        for a in ("max_iter", "tol"):
            if op[a] is not None:
                kw[a] = op[a]
        if op.get("tolk") is not None:                    # a tolerance just below the k-th residual norm
            nk = self.norms(R, op, p, rows, g)[op["tolk"]]
            if nk > 1e-9:
                kw["tol"] = 0.7 * nk
        tol, mx = kw.get("tol", 1e-8), op["max_iter"] or 50
        its, cur, k = [], [0.0], [0]

        def on_call(name):
            d = op["d"][k[0] % len(op["d"])]
            if op["fail"] is not None and k[0] == op["fail"]:
                k[0] += 1
                res.faults["backend-raises"] += 1
                raise MemoryError("injected backend failure")
            if op.get("jump") and op["jump"][0] == k[0]:
                w.clock.jump(op["jump"][1])
                res.faults["clock-jump"] += 1
            k[0] += 1
            w.clock.work(d)
            cur[0] += d
            if name.split(".")[-1] in ("solve", "cho_solve", "umf_solve", "spsolve"):
                its.append(cur[0])
                cur[0] = 0.0
        tp = fs.traced(pr, p)
        ds.fresh_uid()
        ds.BACKEND.on_call = on_call
        t0 = w.clock.mono
        try:
            sol, prof = self.pf.profile_solver_py(pr, bc, tp, jnp.asarray(g), **kw)
        except Violation:
            raise
        except Exception as e:
            if op["fail"] is None or k[0] <= op["fail"]:
                raise Violation("profiling-raised", f"op {n}: profiled Newton solve raised {type(e).__name__}: {str(e)[-200:]}")
            res.ev("newton", n, "raised", type(e).__name__)
            return 1
        finally:
            ds.BACKEND.on_call = None
        if op["fail"] is not None and k[0] > op["fail"]:
            raise Violation("exception-swallowed", f"op {n}: a failed linear solve was not reported")
        total = w.clock.mono - t0
        it, rn = [float(x) for x in prof.iteration_times], [float(x) for x in prof.residual_norms]
        if len(it) != len(rn) or not 1 <= len(rn) <= mx:
            raise Violation("iteration-count", f"op {n}: {len(it)} times, {len(rn)} residuals, limit {mx}")
        want = its + ([0.0] if prof.converged else [])
        if len(want) != len(it) or any(not near(a, b) for a, b in zip(it, want)):
            raise Violation("wrong-duration", f"op {n}: iteration times {it}, solves took {its}")
        if not near(prof.wall_time_s, total):
            raise Violation("wrong-duration", f"op {n}: total {prof.wall_time_s!r}, {total!r} passed")
        if prof.converged != (rn[-1] < tol) or any(x < tol for x in rn[:-1]):
            raise Violation("wrong-converged", f"op {n}: converged={prof.converged} residuals {rn} tol {tol}")
        if not prof.converged and len(rn) < mx:
            raise Violation("iteration-count", f"op {n}: stopped after {len(rn)} of {mx} iterations unconverged")
        R0, _ = R.residual(g, p, jac=True)
        r0 = np.array(R0)
        r0[rows] = 0.0
        if abs(rn[0] - np.linalg.norm(r0)) > 1e-8 * (1 + np.linalg.norm(r0)):
            raise Violation("wrong-residual", f"op {n}: first residual {rn[0]!r}, truth {np.linalg.norm(r0)!r}")
        if prof.converged and tol <= 1e-6:
            U, _, _ = R.solve(p, rows, vals)
            e = np.abs(np.asarray(sol) - U).max()
            if e > 1e-5 * (1 + np.abs(U).max()):
                raise Violation("wrong-result", f"op {n}: profiled solve is off by {e:.2e}")
        res.states.add(("newton", op["fam"], len(rn), prof.converged).__repr__())
        res.ev("newton", n, it, prof.converged)
        return 2


SCENARIOS = [Profiling()]
