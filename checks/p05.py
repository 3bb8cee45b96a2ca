"""P05 - time integration covers the interval exactly, one step after another."""
import contextlib
import io
import math
from fractions import Fraction

from sim.core import Scenario, Violation

RULE = ("A plan is a time configuration (start, end, step, often not representable in binary), an adaptive "
        "configuration with a sequence of proposals (zero, negative, huge, NaN, infinite included) and a kind of "
        "pipeline. Non-trivial: at least two steps were taken.")
STATE_MEASURE = "distinct (pipeline kind, adaptive, step-count bucket, remainder class, proposal kinds) tuples"
TIME_UNIT = "simulated time units of the integrated problems, normalised by the nominal step"
REAL = "feax.solvers.time_solver.run, ImplicitPipeline.step, ExplicitPipeline.step"
STUB = "the physics (trivial pipelines with exact oracle), the mesh (None)"
ASSUMPTIONS = ["clock arithmetic may differ by a few units in the last place; a last step may exceed the step size by 2e-6 "
               "relative (absorbing accumulated rounding)",
               "step count and slivers are judged when the accumulated rounding of the clock stays below 4e-7 of a step"]
CONFIG = dict(quick=dict(wall_s=30, runs=60000, shrink_s=20, plan_s=60),
              thorough=dict(wall_s=900, runs=10 ** 9, shrink_s=40, plan_s=60))


def ulp(*xs):
    return max(math.ulp(max(abs(x) for x in xs)), 5e-324)


def n_fixed(t0, t1, dt):
    """Interval divided by step, rounded up (None: too close to call)."""
    r = (Fraction(t1) - Fraction(t0)) / Fraction(dt)
    if r <= 0:
        return 0
    k = round(r)
    if abs(r - k) <= Fraction(1, 10 ** 8) * max(1, 1) and k > 0:
        return k
    fr = r - math.floor(r)
    if fr < Fraction(1, 10 ** 4) or fr > 1 - Fraction(1, 10 ** 4):
        return None
    return math.ceil(r)


class Steps(Scenario):
    prop, name = "P05", "clock"
    shrink_lists = ("proposals",)

    def setup(self):
        import warnings
        warnings.simplefilter("ignore")
        import feax.solvers.time_solver as ts
        self.ts = ts

    def gen(self, rng):
        base = rng.choice([0.1, 0.01, 1 / 3, 0.7, 1e-5, 3e-7, 0.3, 1e-3, 0.05, 123.4, 1.0, 0.25, 2.0 / 7])
        n = rng.choice([1, 2, 3, 5, 7, 10, 33, 100, 365, 1000, 3000] if rng.random() < 0.9 else [10000, 6000])
        if rng.random() < 0.15:
            n = rng.randrange(1, 60)
        t0 = rng.choice([0.0, 0.0, 0.0, base, -1.0, 0.1, 2.3, 100.0, -base * n / 2, 1e4 * base])
        cls = rng.choice(["exact", "exact", "product", "rem", "rem", "empty", "short"])
        if cls == "exact":
            t1 = t0 + n * base
        elif cls == "product":
            t1 = round(t0 + n * base, 12)
        elif cls == "rem":
            t1 = t0 + (n + rng.choice([0.5, 0.001, 0.999, 0.25, rng.uniform(0.01, 0.99)])) * base
        elif cls == "empty":
            t1 = t0 - rng.choice([0.0, 0.0, base, 3 * base])
        else:
            t1 = t0 + base * rng.choice([0.5, 0.01, 0.9, 1.0])
        plan = dict(dt=base, t0=t0, t1=t1, cls=cls, kind=rng.choice(["direct", "direct", "explicit", "implicit"]),
                    scheme=rng.choice(["euler", "rk2", "rk4"]), adaptive=None, proposals=[],
                    print_every=rng.choice([1, 7, 10 ** 9]))
        if rng.random() < 0.55 and n <= 3000:
            T = abs(t1 - t0) + base
            plan["adaptive"] = dict(dt_min=max(T / rng.choice([50, 400, 1500]), base * 1e-3),
                                    dt_max=rng.choice([1e30, T, base * 3, base, max(T / 3, base * 0.5)]),
                                    growth_factor=rng.choice([1.0, 1.1, 1.5, 2.0, 2.0, 10.0]))
            if plan["adaptive"]["dt_max"] < plan["adaptive"]["dt_min"]:
                plan["adaptive"]["dt_max"] = plan["adaptive"]["dt_min"] * rng.choice([1.0, 4.0])
            if rng.random() < 0.8:
                # start inside the allowed range
                plan["dt"] = min(max(base, plan["adaptive"]["dt_min"]), plan["adaptive"]["dt_max"])
            m = rng.randrange(1, 12)
            plan["proposals"] = [rng.choice([["abs", 0.0], ["abs", -1.0], ["abs", 1e300], ["abs", "nan"], ["abs", "inf"],
                                             ["abs", "-inf"], ["mul", 2.0], ["mul", 0.5], ["mul", 1.0], ["mul", 1.3],
                                             ["mul", 100.0], ["mul", 0.001], ["abs", base], ["abs", base * 1.7],
                                             ["min", 1.0], ["max", 1.0]])
                                 for _ in range(m)]
            if rng.random() < 0.1:
                plan["no_adapt"] = 1       # adaptive configured, pipeline does not propose
        if rng.random() < 0.1:
            plan["np"] = 1                  # numpy scalars in the configuration
        return plan

    # ------------------------------------------------------------- execution
    def execute(self, plan, res):
        ts = self.ts
        t0, t1, dt0 = plan["t0"], plan["t1"], plan["dt"]
        ad = plan["adaptive"]
        calls = []           # (state, t, dt)
        outs = []
        adapts = []
        bound = 12 + (math.ceil(max(0.0, t1 - t0) / (min(dt0, ad["dt_min"]) if ad else dt0)) * (2 if ad else 1))
        kind = plan["kind"]

        def note(state, t, dt):
            calls.append((state, float(t), float(dt)))
            if len(calls) > bound:
                raise Violation("no-termination", f"more than {bound} steps for an interval of {(t1 - t0) / dt0:.3g} nominal steps")

        def rhs(s, t):
            return {"u": -0.3 * s["u"] + 0.5 * t, "v": s["u"] - 0.1 * s["v"]}

        class Mixin:
            def build(self, mesh):
                self.built = True
                if kind == "implicit":
                    def solver(tp, guess):
                        if tp[1] is not guess:
                            raise Violation("implicit-state", "update_vars and the solve saw different states")
                        out = ("s", tp[2], tp[3], len(calls))
                        outs.append(out)

                        class S:
                            dofs = out
                        return S() if plan["scheme"] == "rk2" else out
                    self.solver = solver

            def initial_state(self):
                return {"u": 1.0, "v": 0.25} if kind == "explicit" else ("s0",)

            def monitor(self, state, step, t):
                return {"m": float(step)}

        if ad and not plan.get("no_adapt"):
            def adapt_dt(self, state, step, t, dt):
                adapts.append((state, int(step), float(t), float(dt)))
                k, x = plan["proposals"][(step - 1) % len(plan["proposals"])] if plan["proposals"] else ("mul", 1.0)
                if k == "abs":
                    return float(x)
                if k == "min":
                    return ad["dt_min"]
                if k == "max":
                    return ad["dt_max"]
                return dt * x
            Mixin.adapt_dt = adapt_dt

        if kind == "explicit":
            class P(Mixin, ts.ExplicitPipeline):
                scheme = plan["scheme"]

                def compute_rhs(self, state, t):
                    return rhs(state, t)

                def step(self, state, t, dt):
                    note(state, t, dt)
                    out = ts.ExplicitPipeline.step(self, state, t, dt)
                    outs.append(out)
                    return out
        elif kind == "implicit":
            class P(Mixin, ts.ImplicitPipeline):
                def update_vars(self, state, t, dt):
                    note(state, t, dt)
                    return ("tp", state, t, dt)
        else:
            class P(Mixin, ts.TimePipeline):
                def step(self, state, t, dt):
                    note(state, t, dt)
                    out = ("s", len(calls))
                    outs.append(out)
                    return out
        if plan.get("np"):
            import numpy as np
            c = np.float64
        else:
            c = float
        cfg = ts.TimeConfig(dt=c(dt0), t_end=c(t1), t_start=c(t0), print_every=plan["print_every"])
        adc = ts.AdaptiveDtConfig(**ad) if ad else None
        with contextlib.redirect_stdout(io.StringIO()):
            r = ts.run(P(), None, cfg, adaptive_dt=adc)
        # ---------------------------------------------------------- checking
        n = len(calls)
        res.steps += n
        res.sim_time += (t1 - t0) / dt0 if t1 > t0 else 0.0
        res.nontrivial = n >= 2
        res.ev("n", n, r.n_steps, float(r.t_final).hex())
        res.states.add(f"{kind}|{plan['scheme'] if kind == 'explicit' else ''}|{bool(ad)}|{plan['cls']}|"
                       f"{min(n, 4) if n < 5 else 10 * (len(str(n)))}|"
                       + ",".join(sorted({str(p[1]) if p[0] == "abs" else p[0] for p in plan["proposals"]}))[:40])
        for p in plan["proposals"]:
            if p[0] == "abs" and p[1] in ("nan", "inf", "-inf", 0.0, -1.0, 1e300):
                res.faults["proposal-" + str(p[1])] += 1
        tol = lambda *x: 8 * ulp(t0, t1, *x)       # noqa
        if t1 <= t0:
            if n:
                raise Violation("step-outside", f"{n} steps for an empty interval")
            if r.t_final != t0 or r.n_steps != 0:
                raise Violation("final-time", f"empty interval ended at {r.t_final!r}, steps {r.n_steps}")
        else:
            cur = dt0
            # rounding of the clock over the whole run, in units of the smallest step
            drift = n * ulp(t0, t1) / min(c[2] for c in calls[:-1] or calls)
            clean = drift < 4e-7
            res.probes["clock-drift-too-large-to-judge-count"] += not clean
            init = {"u": 1.0, "v": 0.25} if kind == "explicit" else ("s0",)
            prev_end, prev_state = t0, init
            for k, (s, t, dt) in enumerate(calls):
                last = k == n - 1
                if abs(t - prev_end) > tol():
                    raise Violation("gap", f"step {k + 1} begins at {t!r}, the previous one ended at {prev_end!r}")
                if s != prev_state:
                    raise Violation("state-chain", f"step {k + 1} did not start from the state of step {k}")
                if not dt > 0:
                    raise Violation("non-positive-step", f"step {k + 1} has size {dt!r}")
                if dt > cur * (1 + 2e-6) + tol():
                    raise Violation("step-too-long", f"step {k + 1} has size {dt!r}, current step size {cur!r}")
                if t + dt > t1 + tol():
                    raise Violation("past-end", f"step {k + 1} ends at {t + dt!r} beyond {t1!r}")
                if not last and dt < cur * (1 - 1e-9) - tol():
                    raise Violation("short-inner-step", f"step {k + 1} of {n} has size {dt!r} instead of {cur!r}")
                if clean and dt < 1e-7 * cur:
                    raise Violation("sliver-step", f"step {k + 1} has size {dt!r}, a rounding residue of step size {cur!r}")
                if kind == "explicit":
                    self.check_scheme(plan["scheme"], rhs, s, t, dt, outs[k])
                prev_end, prev_state = t + dt, outs[k]
                if ad and not plan.get("no_adapt"):
                    if k < len(adapts):
                        a = adapts[k]
                        if a[0] != outs[k] or a[1] != k + 1 or abs(a[2] - prev_end) > tol():
                            raise Violation("adapt-args", f"adapt_dt after step {k + 1} was given step {a[1]}, t {a[2]!r}")
                        if abs(a[3] - cur) > 1e-12 * cur:
                            raise Violation("dt-limits", f"step size before proposal {k + 1} is {a[3]!r}, expected {cur!r}")
                    elif not last:
                        raise Violation("adapt-args", f"no proposal asked after step {k + 1}")
                    kk, x = plan["proposals"][k % len(plan["proposals"])] if plan["proposals"] else ("mul", 1.0)
                    prop = float(x) if kk == "abs" else ad["dt_min"] if kk == "min" else ad["dt_max"] if kk == "max" else cur * x
                    if math.isnan(prop):
                        nxt = calls[k + 1][2] if k + 2 < n else (adapts[k + 1][3] if k + 1 < len(adapts) else None)
                        lo, hi = min(ad["dt_min"], cur * ad["growth_factor"]), min(ad["dt_max"], cur * ad["growth_factor"])
                        if nxt is None:
                            cur = max(lo, hi)
                        elif not (lo * (1 - 1e-9) <= nxt <= max(lo, hi) * (1 + 1e-9)):
                            raise Violation("dt-limits", f"NaN proposal gave step size {nxt!r} outside [{lo!r}, {hi!r}]")
                        else:
                            cur = nxt
                    else:
                        cur = min(max(ad["dt_min"], min(ad["dt_max"], prop)), cur * ad["growth_factor"])
            if n == 0 or abs(prev_end - t1) > tol():
                raise Violation("end-not-reached", f"the steps end at {prev_end!r}, end time {t1!r}")
            if abs(float(r.t_final) - t1) > tol():
                raise Violation("final-time", f"t_final {r.t_final!r}, end time {t1!r}")
            if not ad or plan.get("no_adapt"):
                want = n_fixed(t0, t1, dt0)
                if clean and want is not None and n != want:
                    raise Violation("step-count", f"{n} steps of {dt0!r} for [{t0!r}, {t1!r}], expected {want}")
        if r.n_steps != n:
            raise Violation("result-steps", f"n_steps {r.n_steps}, {n} steps taken")
        if n and r.final_state != outs[-1]:
            raise Violation("result-state", "final_state is not the state of the last step")

    @staticmethod
    def check_scheme(scheme, f, s, t, dt, out):
        add = lambda a, x, y: {k: y[k] + a * x[k] for k in y}        # noqa
        k1 = f(s, t)
        if scheme == "euler":
            ref = add(dt, k1, s)
        elif scheme == "rk2":
            ref = add(dt, f(add(dt / 2, k1, s), t + dt / 2), s)
        else:
            k2 = f(add(dt / 2, k1, s), t + dt / 2)
            k3 = f(add(dt / 2, k2, s), t + dt / 2)
            k4 = f(add(dt, k3, s), t + dt)
            ref = {k: s[k] + dt / 6 * (k1[k] + 2 * k2[k] + 2 * k3[k] + k4[k]) for k in s}
        for k in s:
            m = max(1e-300, abs(ref[k]), abs(s[k]))
            if not (abs(out[k] - ref[k]) <= 1e-11 * m) and math.isfinite(ref[k]):
                raise Violation("scheme", f"{scheme} step from {s} at {t!r} by {dt!r} gave {out}, expected {ref}")


SCENARIOS = [Steps()]
