"""Shared simulation of the topology-optimisation driver (P07, P08)."""
import contextlib
import csv
import io
import os

import numpy as np

from sim import fsim
from sim.core import Violation

_ready = {}


class Crash(BaseException):
    pass


class Boom(RuntimeError):
    pass


EXC = {"boom": Boom, "int": KeyboardInterrupt, "os": OSError, "val": ValueError, "rt": RuntimeError, "mem": MemoryError,
       "zero": ZeroDivisionError, "key": KeyError}
ACTIVE = [None]


def setup():
    if _ready:
        return
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    fsim.install()
    import jax
    jax.config.update("jax_enable_x64", True)
    import nlopt
    import feax as fe
    import feax.gene.optimizer as go
    import meshio  # noqa
    _ready.update(jax=jax, nlopt=nlopt, fe=fe, go=go, jnp=jax.numpy)
    Real = nlopt.opt

    class SimOpt(Real):
        """The real optimiser object, observed; optionally it follows a script."""

        def __init__(self, *a):
            super().__init__(*a)
            if ACTIVE[0] is not None:
                ACTIVE[0].new_opt(self)

        def set_min_objective(self, f):
            run = ACTIVE[0]
            self._f = (lambda x, g: run.objective(self, f, x, g)) if run else f
            return super().set_min_objective(self._f)

        def add_inequality_constraint(self, f, *a):
            run = ACTIVE[0]
            if not hasattr(self, "_cons"):
                self._cons = []
            idx = len(self._cons)
            g = (lambda x, gr: run.constraint(self, idx, f, x, gr)) if run else f
            self._cons.append(g)
            return super().add_inequality_constraint(g, *a)

        def optimize(self, x):
            run = ACTIVE[0]
            return run.optimize(self, lambda z: Real.optimize(self, z), x) if run else super().optimize(x)

    nlopt.opt = SimOpt


def kuhn(nx, ny, nz, warp, seed):
    """Small TET4 box; warp moves interior/edge coordinates without changing the count."""
    fe = _ready["fe"]
    r = np.random.RandomState(seed)
    ax = []
    for n in (nx, ny, nz):
        a = np.linspace(0, 1, n + 1)
        if warp and n > 1:
            a[1:-1] += r.uniform(-0.3, 0.3, n - 1) / n
        ax.append(a)
    X, Y, Z = np.meshgrid(*ax, indexing="ij")
    pts = np.stack([X.ravel(), Y.ravel(), Z.ravel()], 1) * (1.0 + (0.2 * r.rand() if warp else 0.0))
    nid = lambda i, j, k: (i * (ny + 1) + j) * (nz + 1) + k      # noqa
    import itertools
    cells = []
    for i, j, k in itertools.product(range(nx), range(ny), range(nz)):
        for p in itertools.permutations(range(3)):
            v = [i, j, k]
            tet = [nid(*v)]
            for d in p:
                v[d] += 1
                tet.append(nid(*v))
            P = pts[tet]
            if np.linalg.det(P[1:] - P[0]) < 0:
                tet[2], tet[3] = tet[3], tet[2]
            cells.append(tet)
    return fe.Mesh(pts, np.array(cells, dtype=np.int32), ele_type="TET4")


def mesh_for(spec):
    return kuhn(spec[0], spec[1], spec[2], spec[3], spec[4])


def coeffs(mesh):
    p = np.asarray(mesh.points)
    w = 0.5 + p[:, 0] + 0.3 * p[:, 1] ** 2
    c = 0.35 + 0.25 * np.sin(3.0 * p[:, 0] + p[:, 2]) * p.max()
    vol = 1.0 + 0.5 * p[:, 2] * p.max()
    return w / w.sum(), c, vol / vol.sum()


def ref_obj(mesh, rho, params):
    w, c, _ = coeffs(mesh)
    b, q = params.get("beta", 1.0), params.get("p", 0.0)
    val = np.sum(w * (rho - c) ** 2) * (1 + 0.1 * b) + 0.01 * q * np.sum(w * rho)
    return val, 2 * w * (rho - c) * (1 + 0.1 * b) + 0.01 * q * w


def ref_vol(mesh, rho, params):
    _, _, v = coeffs(mesh)
    k = 1 + 0.01 * params.get("beta", 1.0)
    return np.sum(v * rho) * k, v * k


def ref_mom(mesh, rho, params):
    w, _, _ = coeffs(mesh)
    s = 0.02 * params.get("p", 0.0)
    return np.sum(w * rho ** 2) + s, 2 * w * rho


def ref_filter(mesh, rho):
    w, _, _ = coeffs(mesh)
    return 0.9 * rho + 0.1 * np.sum(w * rho)


def ref_value_at(c, it):
    n = max(0, it // c["update_every"])
    v = c["initial"] + c["step"] * n
    lo, hi = min(c["initial"], c["final"]), max(c["initial"], c["final"])
    return min(max(v, lo), hi)


def gen_plan(rng, outputs):
    n = rng.choice([1, 3, 5, 8, 12, 16, 24])
    conts = {}
    for nm in ("beta", "p"):
        if rng.random() < 0.55:
            up = rng.random() < 0.65
            step = rng.choice([1.0, 0.5, 0.75, 2.0])
            a, b = 1.0, rng.choice([2.0, 3.0, 8.0])
            if not up:
                a, b = b, a
                step = -step
            if rng.random() < 0.08:
                step = -step                  # a step away from the final value
            conts[nm] = dict(initial=a, final=b, update_every=rng.choice([1, 2, 3, 4, 5, 7, 10]), step=step)
    mesh0 = [rng.choice([1, 2]), 1, rng.choice([1, 2]), 0, 0]
    plan = dict(max_iter=n, conts=conts, mesh=mesh0, jit=int(rng.random() < (0.06 if outputs else 0.12)),
                cons=rng.choice([["vol"], ["vol"], ["vol", "mom"], ["voleq"], ["mom", "voleq"], []]),
                target=rng.choice([0.4, 0.3, 0.6]), lo=rng.choice([0.001, 0.05, 0.0]), hi=rng.choice([1.0, 1.0, 0.9]),
                solid=[], void=[], script=[], remesh=[], adapt_every=0, n_adapts=0, transfer="custom",
                save_every=rng.choice([1, 2, 3, 5, 10]), out=int(outputs), seed=rng.randrange(10 ** 6),
                init=rng.choice([None, None, "mid"]), faults=[], io=[])
    if rng.random() < 0.05:
        plan["target"] = rng.choice([-0.2, 0.0])
    nn = (mesh0[0] + 1) * 2 * (mesh0[2] + 1)
    if rng.random() < 0.4:
        ids = list(range(nn))
        rng.shuffle(ids)
        plan["solid"] = ids[:rng.randrange(0, 3)]
        plan["void"] = ids[3:3 + rng.randrange(0, 3)]
    if rng.random() < 0.6:
        plan["adapt_every"] = rng.choice([1, 2, 3, 4, 5, 6, 10])
        plan["n_adapts"] = rng.choice([0, 1, 1, 2, 3])
        plan["transfer"] = rng.choice(["custom", "default", "default"])
        for i in range(plan["n_adapts"]):
            if rng.random() < 0.5:
                plan["remesh"].append(mesh0[:3] + [1, rng.randrange(1000)])    # same count, other points
            else:
                plan["remesh"].append([rng.choice([1, 2]), rng.choice([1, 2]), rng.choice([1, 2]), 1, rng.randrange(1000)])
    if rng.random() < 0.6:                    # scripted inner optimiser
        for _ in range(rng.randrange(1, 8)):
            plan["script"].append([rng.choice([None, None, 1, 2, 3, 5]), rng.choice(["best", "last", "roundoff"])])
    return plan


class Run:
    def __init__(self, plan, res, fs=None):
        self.plan, self.res, self.fs = plan, res, fs
        self.evals = []          # (x, val, params, mesh)
        self.cons_calls = 0
        self.done = 0            # evaluations completed
        self.builds = []
        self.remeshes = []       # evaluation count at each remesh
        self.snaps = {}          # expected snapshots name -> (mesh, field)
        self.last_x = None
        self.cur_mesh = None
        self.count = {}
        self.raised = []
        self.crash_disk = None
        self.opt_calls = 0
        self.expect_first = None
        self.in_eval = False
        self.all_evals_started = 0
        self.rs = np.random.RandomState(plan["seed"])
        self.faults = {}
        for w, i, k in plan["faults"]:
            self.faults.setdefault(w, {})[i] = k

    # -- seams ---------------------------------------------------------------
    def visit(self, where):
        i = self.count.get(where, 0)
        self.count[where] = i + 1
        self.res.ev(where, i)
        k = self.faults.get(where, {}).get(i)
        if k == "crash":
            self.crash(where)
        if k:
            e = EXC[k](f"injected in {where}")
            self.raised.append(e)
            self.res.faults[f"user-{where}-{k}"] += 1
            raise e

    def crash(self, where):
        if self.crash_disk is None:
            self.crash_disk = (self.table(), self.done, self.in_eval)
            self.res.faults["crash"] += 1
            self.res.ev("crash", where)
            if self.fs:
                self.fs.kill()
        raise Crash(where)

    def table(self):
        raw = fsim.read(os.path.join(self.out, "history.csv"))
        if raw is None:
            return None
        txt = raw.decode("utf-8", "replace")
        i = txt.rfind("\n")
        rows = list(csv.reader(io.StringIO(txt[:i + 1], newline="")))
        return (rows[0] if rows else []), rows[1:], txt[i + 1:]

    def new_opt(self, opt):
        pass

    def params_for(self, k):
        """Continuation values of the k-th evaluation (1-based)."""
        return {n: ref_value_at(c, k - 1) for n, c in self.plan["conts"].items()}

    def check_design(self, x, what):
        p = self.plan
        n = len(x)
        if n != len(np.asarray(self.cur_mesh.points)):
            raise Violation("design-size", f"{what}: {n} variables on a mesh of {len(self.cur_mesh.points)} nodes")
        lo, hi = np.full(n, p["lo"]), np.full(n, p["hi"])
        pins = n == self.n0
        if pins:
            lo[p["solid"]] = hi[p["solid"]] = 1.0
            lo[p["void"]] = hi[p["void"]] = p["lo"]
        if np.any(x < lo - 1e-12) or np.any(x > hi + 1e-12) or not np.all(np.isfinite(x)):
            i = int(np.argmax(np.maximum(lo - x, x - hi)))
            raise Violation("design-bounds", f"{what}: variable {i} = {x[i]!r}, bounds [{lo[i]!r}, {hi[i]!r}]")

    def objective(self, opt, f, x, g):
        p = self.plan
        self.all_evals_started += 1
        k = self.done + 1
        if self.all_evals_started > p["max_iter"]:
            raise Violation("budget", f"evaluation {self.all_evals_started} of a budget of {p['max_iter']}")
        if p["out"] and self.fs:
            self.check_disk(self.table(), self.done, self.done, "at the beginning of the next evaluation", False)
        want = sum(1 for m in range(1, k) if self.remesh_due(m))
        if len(self.remeshes) != want:
            raise Violation("remesh-cadence", f"evaluation {k} after {len(self.remeshes)} remeshes, expected {want}")
        x0 = np.array(x)
        self.check_design(x0, f"evaluation {k}")
        if self.expect_first is not None:
            e, self.expect_first = self.expect_first, None
            if self.plan["script"] == [] or True:
                if not np.allclose(e, x0, rtol=0, atol=1e-12):
                    raise Violation("transfer-lost", "the first design evaluated after a remesh is not the transferred one")
        self.in_eval = True
        gbuf = np.zeros_like(x0)
        val = f(x, gbuf)
        if g is not None and len(g):
            g[:] = gbuf
        prm = self.params_for(k)
        rv, rg = ref_obj(self.cur_mesh, x0, prm)
        if abs(val - rv) > 1e-9 * max(1.0, abs(rv)):
            raise Violation("objective-value", f"evaluation {k} returned {val!r}, expected {rv!r} with {prm}")
        if np.max(np.abs(gbuf - rg)) > 1e-9 * max(1.0, np.max(np.abs(rg))):
            raise Violation("objective-gradient", f"evaluation {k}: gradient error {np.max(np.abs(gbuf - rg)):.3e}")
        self.evals.append((x0, float(val), prm, self.cur_mesh))
        self.done += 1
        self.in_eval = False
        if p["out"] and self.done % p["save_every"] == 0:
            self.snaps[f"iter_{self.done:04d}.vtu"] = (self.cur_mesh, ref_filter(self.cur_mesh, x0))
        return val

    def specs(self):
        """Registered inequality constraints, any order: (name, reference, target, sign)."""
        out = []
        for c in self.plan["cons"]:
            if c == "vol":
                out.append(("vol", ref_vol, self.plan["target"], 1))
            elif c == "mom":
                out.append(("mom", ref_mom, 0.8, 1))
            else:
                out.append(("voleq", ref_vol, self.plan["target"] + 0.05, 1))
                out.append(("voleq_lb", ref_vol, self.plan["target"] - 0.05, -1))
        return out

    def constraint(self, opt, idx, f, x, g):
        self.cons_calls += 1
        x0 = np.array(x)
        gbuf = np.zeros_like(x0)
        v = f(x, gbuf)
        if g is not None and len(g):
            g[:] = gbuf
        # belongs to the last evaluated design's epoch (or the next one, if asked first)
        for k in (self.done, self.done + 1):
            prm = self.params_for(max(1, k))
            for nm, ref, tgt, sg in self.specs():
                rv, rg = ref(self.cur_mesh, x0, prm)
                if abs(v - sg * (rv - tgt)) <= 1e-9 and np.max(np.abs(gbuf - sg * rg)) <= 1e-9:
                    return v
        raise Violation("constraint-value", f"constraint {idx} returned {v!r}: no configured constraint has this value "
                        f"and gradient on the current mesh with {self.params_for(max(1, self.done))}")

    def remesh_due(self, m):
        p = self.plan
        return bool(p["adapt_every"] and m % p["adapt_every"] == 0 and m < p["max_iter"]
                    and m // p["adapt_every"] <= p["n_adapts"])

    def optimize(self, opt, real, x):
        i = self.opt_calls
        self.opt_calls += 1
        if i > 4 * self.plan["max_iter"] + 10:
            raise Violation("no-progress", "the inner optimiser is called again and again without evaluations")
        sc = self.plan["script"]
        if not sc:
            try:
                out = real(x)
            except _ready["nlopt"].RoundoffLimited:
                self.res.faults["roundoff-real"] += 1
                self.last_x = None
                raise
        else:
            nmax, end = sc[i % len(sc)]
            budget = opt.get_maxeval()
            lo, hi = np.array(opt.get_lower_bounds()), np.array(opt.get_upper_bounds())
            x = np.array(x, dtype=float)
            if x.shape != lo.shape or np.any(x < lo) or np.any(x > hi):
                raise ValueError("nlopt invalid argument: start outside the bounds")
            m = min(budget, nmax or budget)
            best, bv, z = x.copy(), None, x.copy()
            for j in range(m):
                g = np.zeros_like(z)
                v = opt._f(z, g)
                if bv is None or v < bv:
                    best, bv = z.copy(), v
                for c in getattr(opt, "_cons", []):
                    c(z, np.zeros_like(z))
                z = np.clip(z + self.rs.uniform(-0.4, 0.4, z.shape), lo, hi)
            if nmax and nmax < budget:
                self.res.faults["early-stop"] += 1
            if end == "roundoff":
                self.last_x = None
                self.res.faults["roundoff"] += 1
                raise _ready["nlopt"].RoundoffLimited("injected roundoff")
            out = best if end == "best" else np.clip(z, lo, hi)
        self.last_x = np.array(out)
        return out

    # -- running -------------------------------------------------------------
    def pipeline(self):
        go, jnp = _ready["go"], _ready["jnp"]
        run, p = self, self.plan

        class P(go.Pipeline):
            def build(self, mesh):
                run.visit("build")
                run.builds.append(mesh)
                run.cur_mesh = mesh
                w, c, v = coeffs(mesh)
                self.mesh = mesh
                self.w, self.c, self.v = jnp.asarray(w), jnp.asarray(c), jnp.asarray(v)

            def objective(self, rho, beta=1.0, p=0.0):
                run.visit("objective")
                return jnp.sum(self.w * (rho - self.c) ** 2) * (1 + 0.1 * beta) + 0.01 * p * jnp.sum(self.w * rho)

            def filter(self, rho):
                run.visit("filter")
                return 0.9 * rho + 0.1 * jnp.sum(self.w * rho)

        if "vol" in p["cons"]:
            def vol(self, rho, beta=1.0, p=0.0):
                run.visit("constraint")
                return jnp.sum(self.v * rho) * (1 + 0.01 * beta)
            P.vol = go.constraint(target=p["target"])(vol)
        if "mom" in p["cons"]:
            def mom(self, rho, beta=1.0, p=0.0):
                run.visit("constraint")
                return jnp.sum(self.w * rho ** 2) + 0.02 * p
            P.mom = go.constraint(target=0.8)(mom)
        if "voleq" in p["cons"]:
            def voleq(self, rho, beta=1.0, p=0.0):
                run.visit("constraint")
                return jnp.sum(self.v * rho) * (1 + 0.01 * beta)
            P.voleq = go.constraint(target=p["target"], type="eq", tol=0.05)(voleq)
        return P()

    def run(self, out=None):
        p, go = self.plan, _ready["go"]
        mesh = mesh_for(p["mesh"])
        self.n0 = len(np.asarray(mesh.points))
        self.out = out or ""
        self.cur_mesh = mesh
        kw = {}
        if p["init"] == "mid":
            kw["rho_init"] = np.linspace(max(p["lo"], 0.2), min(p["hi"], 0.8), self.n0)
        if p["solid"] or p["void"]:
            kw["passive_solid"], kw["passive_void"] = np.array(p["solid"], dtype=int), np.array(p["void"], dtype=int)
        if p["adapt_every"]:
            def remesh(old, rho_f):
                self.visit("remesh")
                if old is not self.cur_mesh:
                    raise Violation("remesh-args", "remesh was given a mesh that is not the current one")
                if not self.remesh_due(self.done):
                    raise Violation("remesh-cadence", f"remesh after evaluation {self.done}")
                if self.last_x is not None and not p["script"] and not np.allclose(
                        np.asarray(rho_f), ref_filter(old, self.last_x), atol=1e-9):
                    raise Violation("remesh-args", "remesh was not given the filtered current design")
                self.remeshes.append(self.done)
                m = mesh_for(p["remesh"][(len(self.remeshes) - 1) % len(p["remesh"])])
                self.new_mesh = m
                return m

            def transfer(x, po, pn):
                self.visit("transfer")
                if len(x) != len(po) or len(po) != len(np.asarray(self.cur_mesh.points)) \
                        or not np.allclose(pn, np.asarray(self.new_mesh.points)):
                    raise Violation("transfer-args", "transfer was given other point sets")
                r = np.random.RandomState(len(pn) + self.done)
                out = r.uniform(max(p["lo"], 0.1), min(p["hi"], 0.9), len(pn))
                self.expect_first = out.copy()
                if len(pn) == self.n0:
                    self.expect_first[p["solid"]] = 1.0
                    self.expect_first[p["void"]] = p["lo"]
                return out
            a = dict(remesh=remesh, adapt_every=p["adapt_every"], n_adapts_max=p["n_adapts"])
            if p["transfer"] == "custom":
                a["transfer"] = transfer
            kw["adaptive"] = go.AdaptiveConfig(**a)
        if p["conts"]:
            kw["continuations"] = {k: go.Continuation(**c) for k, c in p["conts"].items()}
        if p["out"]:
            kw["output_dir"] = self.out
        ACTIVE[0] = self
        exc = r = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if p["jit"]:
                    r = go.run(self.pipeline(), mesh, max_iter=p["max_iter"], save_every=p["save_every"],
                               rho_bounds=(p["lo"], p["hi"]), jit=True, **kw)
                else:
                    r = go.run(self.pipeline(), mesh, max_iter=p["max_iter"], save_every=p["save_every"],
                               rho_bounds=(p["lo"], p["hi"]), jit=False, **kw)
        except Violation:
            raise
        except BaseException as e:       # noqa
            exc = e
        finally:
            ACTIVE[0] = None
        return r, exc

    # -- judging -------------------------------------------------------------
    def check_result(self, r):
        p = self.plan
        if self.done != p["max_iter"]:
            raise Violation("budget", f"{self.done} evaluations of a budget of {p['max_iter']}")
        want = [m for m in range(1, p["max_iter"]) if self.remesh_due(m)]
        if self.remeshes != want:
            raise Violation("remesh-cadence", f"remeshes after evaluations {self.remeshes}, expected {want}")
        if len(self.builds) != 1 + len(want) or r.mesh is not self.builds[-1]:
            raise Violation("build-cadence", f"{len(self.builds)} builds for {len(want)} remeshes, or the result's mesh is not the last")
        x = np.asarray(r.rho)
        self.check_design(x, "the returned design")
        if self.last_x is not None and not p["script"] and not np.array_equal(x, self.last_x):
            raise Violation("result-design", "the returned design is not the one the inner optimiser ended with")
        prm = self.params_for(max(1, self.done))
        rv, _ = ref_obj(r.mesh, x, prm)
        if abs(r.final_objective - rv) > 1e-9 * max(1, abs(rv)):
            raise Violation("final-objective", f"{r.final_objective!r}, the returned design has {rv!r}")
        names = {n: ref for n, ref, _, _ in self.specs()}
        if set(r.final_constraints) != set(names):
            raise Violation("final-constraints", f"{sorted(r.final_constraints)} instead of {sorted(names)}")
        for n, ref in names.items():
            cv, _ = ref(r.mesh, x, prm)
            if abs(r.final_constraints[n] - cv) > 1e-9 * max(1, abs(cv)):
                raise Violation("final-constraints", f"{n} = {r.final_constraints[n]!r}, the returned design has {cv!r}")
        if np.max(np.abs(np.asarray(r.rho_filtered) - ref_filter(r.mesh, x))) > 1e-9:
            raise Violation("final-filter", "rho_filtered is not the filtered returned design")
        h = r.history
        if list(h["iteration"]) != list(range(1, self.done + 1)):
            raise Violation("history", f"iterations {h['iteration']}")
        if set(h) != {"iteration", "objective", *names}:
            raise Violation("history", f"columns {sorted(h)}")
        for k, (x0, v, prm, m) in enumerate(self.evals):
            row = [v] + [ref(m, x0, prm)[0] for ref in names.values()]
            got = [h["objective"][k]] + [h[n][k] for n in names]
            if max(abs(a - b) for a, b in zip(row, got)) > 1e-9:
                raise Violation("history", f"evaluation {k + 1} recorded as {got}, was {row}")

    def check_disk(self, tab, need, most, when, torn_ok):
        p = self.plan
        if tab is None:
            if need or not torn_ok:
                raise Violation("table-missing", f"no history table {when}, {most} evaluations done")
            return
        hdr, rows, tail = tab
        names = [n for n, *_ in self.specs()]
        if hdr and (hdr[:2] != ["iteration", "objective"] or sorted(hdr[2:]) != sorted(names + list(p["conts"]))):
            raise Violation("table-header", f"{hdr} {when}")
        if not hdr and (need or not torn_ok):
            raise Violation("table-header", f"no header {when}")
        if tail and not torn_ok:
            raise Violation("table-torn", f"incomplete line {tail[:60]!r} {when}")
        if len(rows) < need:
            raise Violation("row-lost", f"{len(rows)} rows {when}, {need} evaluations were completed before")
        if len(rows) > most:
            raise Violation("row-invented", f"{len(rows)} rows {when}, only {most} evaluations done")
        refs = {n: ref for n, ref, _, _ in self.specs()}
        for k, row in enumerate(rows):
            if k >= len(self.evals):
                break
            x0, v, prm, m = self.evals[k]
            want = {"iteration": k + 1, "objective": v, **prm, **{n: f(m, x0, prm)[0] for n, f in refs.items()}}
            try:
                got = {h: float(c) for h, c in zip(hdr, row)}
                bad = len(row) != len(hdr) or any(abs(got[c] - want[c]) > 1e-9 * max(1, abs(want[c])) for c in hdr)
            except ValueError:
                bad = True
            if bad:
                raise Violation("row-wrong", f"row {dict(zip(hdr, row))} {when}, expected {want}")
