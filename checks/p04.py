"""P04 - an unconverged solve is never passed off as a solution."""
import contextlib
import io
import logging
import os

import numpy as np

from checks import femsys as fs
from checks import p03
from sim import directsys as ds
from sim.core import Scenario, Violation

RULE = ("A plan fixes one solver (linear, Newton, periodic, extra residual or AMG-rebuilding Newton; Krylov or direct "
        "backend; checking on or off, threshold) and calls it several times, eagerly, compiled, batched or under "
        "grad, while chosen inner linear solves return a scaled, zero, stale, perturbed, reversed, huge or "
        "non-finite vector. Non-trivial: at least one inner solve was corrupted and the outcome was judged.")
STATE_MEASURE = "distinct (path, backend, mode, place of the corrupted solve, kind of corruption, outcome) tuples"
REAL = ("feax.solver, feax.solvers.linear/newton/reduced/amg/common, the assembler, JAX, the Krylov loops of JAX, "
        "CHOLMOD, UMFPACK, SuperLU, PyAMG")
STUB = "the vector returned by an inner linear solve, at the boundary of jax.scipy.sparse.linalg / sksparse / scipy"
ASSUMPTIONS = ["the residual that decides is that of the operator handed to the linear solver (Dirichlet conditions "
               "applied), relative to its right hand side, as documented",
               "under jit or vmap a failed line search cannot raise; it ends the iteration (documented)"]
CONFIG = dict(quick=dict(wall_s=130, runs=20000, shrink_s=40, plan_s=300),
              thorough=dict(wall_s=1800, runs=10 ** 9, shrink_s=120, plan_s=300))

KEY = "b"


class Seam:
    """Decides what the k-th inner linear solve of a call returns, and records it."""

    def __init__(self):
        self.plan, self.calls, self.last = {}, [], None

    def arm(self, plan):
        self.plan, self.calls = plan, []

    def host(self, x, b):
        x, b = np.array(x, float), np.array(b, float)
        k = len(self.calls)
        mode = self.plan.get(k)
        true = x
        if mode is not None:
            x = self.corrupt(mode, x)
        self.calls.append((b, x, mode))
        self.last = true
        return x

    def corrupt(self, mode, x):
        m = mode[0]
        if m == "scale":
            return x * mode[1]
        if m == "zero":
            return 0 * x
        if m == "nan":
            y = x.copy()
            y[mode[1] % len(y)] = np.nan
            return y
        if m == "inf":
            y = x.copy()
            y[mode[1] % len(y)] = np.inf
            return y
        if m == "stale":
            return x * 0.0 + (self.last if self.last is not None and self.last.shape == x.shape else 0.0)
        if m == "spike":
            y = x.copy()
            y[mode[1] % len(y)] += mode[2] * (1 + np.abs(x).max())
            return y
        if m == "rand":
            return np.random.RandomState(mode[1]).uniform(-1, 1, x.shape) * (1 + np.abs(x).max())
        raise AssertionError(m)


SEAM = Seam()
_installed = []


def install():
    if _installed:
        return
    _installed.append(1)
    import jax
    import jax.numpy as jnp
    import jax.scipy.sparse.linalg as jl
    cb = jax.pure_callback

    def wrap(name):
        orig = getattr(jl, name)

        def solve(A, b, *a, **k):
            x, info = orig(A, b, *a, **k)
            x = jnp.asarray(x)
            y = cb(lambda x_, b_: SEAM.host(x_, b_).astype(x_.dtype), jax.ShapeDtypeStruct(x.shape, x.dtype),
                   x, b, vmap_method="sequential")
            return jnp.asarray(y), info
        solve.__name__ = name
        setattr(jl, name, solve)
    for n in ("cg", "bicgstab", "gmres"):
        wrap(n)
    orig_call = ds.BACKEND.call

    def call(name, fn, *a, **k):
        out = orig_call(name, fn, *a, **k)
        if "solve" in name and isinstance(out, np.ndarray) and out.dtype.kind == "f":
            b = [v for v in a if isinstance(v, np.ndarray) and v.shape == out.shape]
            if b:
                out = SEAM.host(out.reshape(-1), b[-1].reshape(-1)).reshape(out.shape).astype(out.dtype)
        return out
    ds.BACKEND.call = call


class Unconverged(Scenario):
    prop, name = "P04", "unconverged"
    shrink_lists = ("ops",)

    def setup(self):
        install()
        p03.SCENARIOS[0].setup()
        self.fe, self.jax = p03.SCENARIOS[0].fe, p03.SCENARIOS[0].jax
        logging.disable(logging.NOTSET)
        self.warned = w = []

        class H(logging.Handler):
            def emit(self, rec):
                if rec.levelno >= logging.WARNING:
                    w.append(rec.getMessage())
        lg = logging.getLogger("feax")
        lg.addHandler(H())
        lg.propagate = False
        self.solvers, self.problems = {}, {}

    # ------------------------------------------------------------ generator
    def gen(self, rng):
        path = rng.choice(["linear", "linear", "linear", "newton", "newton", "periodic", "host"])
        if path == "linear":
            fam = rng.choice(["diffusion", "elastic", "couple"])
        elif path == "periodic":
            fam = "diffusion"
        else:
            fam = "nonlinear"
        f = fs.FAMILIES[fam]
        sym = 1 if path in ("periodic", "host") or rng.random() < 0.8 else 0
        pool = ["spsolve", "umfpack", "gmres"] + (["cholmod", "cg", "cg"] if f["sym"] and sym else ["bicgstab"])
        if path == "linear" and f["sym"] and sym:
            pool.append("amg")
        sol = rng.choice(pool)
        kind = path
        if path == "periodic":
            sol = rng.choice(["cg", "cg", "spsolve"])
        if path == "host":
            kind = rng.choice(["extra", "extra", "amg"])
            sol = rng.choice(["cg", "gmres", "spsolve", "umfpack"]) if kind == "extra" else "amg"
        cfg = dict(path=kind, fam=fam, sol=sol, sym=sym, bc="A" if path == "periodic" else rng.choice("AB"),
                   chk=int(rng.random() < 0.8), tau=rng.choice([0.1, 1e-2, 1e-5]))
        if kind in ("linear", "newton", "periodic") and rng.random() < 0.3:        # the gradient solver has its own options
            apool = ["cg", "spsolve"] if kind == "periodic" else [q for q in pool if q != "amg"]
            cfg["adj"] = dict(sol=rng.choice(apool), chk=int(rng.random() < 0.7), tau=rng.choice([0.1, 1e-2, 1e-5]))
        elif kind in ("linear", "newton") and sol == "cholmod" and rng.random() < 0.4:
            cfg["view"] = 1
        if kind == "newton":
            cfg.update(raising=int(rng.random() < 0.75), maxit=rng.choice([3, 4, 25, 25]))
        ops = []
        for _ in range(rng.randrange(3, 9)):
            y = rng.random()
            if kind in ("linear", "periodic"):
                mode = "eager" if y < 0.25 else "jit" if y < 0.5 else "vmap" if y < 0.65 else "grad"
                if kind == "periodic" and mode == "vmap":
                    mode = "eager"
            elif kind == "newton":
                mode = "eager" if y < 0.4 else "jit" if y < 0.65 else "vmap" if y < 0.8 else "grad"
            else:
                mode = "eager" if y < 0.8 else "grad"
            op = dict(mode=mode, par=dict(s=rng.randrange(4)), guess=rng.choice(["zero", "rand"]), c=rng.randrange(3), x=[])

            def corruption(newton):
                z = rng.random()
                if not newton:
                    if z < 0.5:
                        return ["scale", 1 + rng.choice([0.5, 0.9, 1.1, 2.0, 20.0]) * tau * rng.choice([1, -1])]
                    return rng.choice([["zero"], ["nan", rng.randrange(12)], ["inf", rng.randrange(12)], ["stale"],
                                       ["spike", rng.randrange(12), rng.choice([1e-3, 0.3, 30.0])], ["rand", 3],
                                       ["scale", -1.0], ["scale", 1e8]])
                return rng.choice([["zero"], ["nan", rng.randrange(12)], ["inf", rng.randrange(12)], ["stale"],
                                   ["scale", -1.0], ["scale", 0.3], ["scale", 3.0], ["scale", 1e6], ["scale", -1e-7],
                                   ["rand", rng.randrange(9)], ["spike", rng.randrange(12), rng.choice([0.1, 10.0])]])
            tau = cfg["adj"]["tau"] if "adj" in cfg and mode == "grad" else cfg["tau"]
            if kind in ("linear", "periodic"):
                n = dict(eager=1, jit=1, vmap=2, grad=2)[mode]
                for k in range(n):
                    if rng.random() < (0.75 if mode != "grad" or k else 0.2):
                        op["x"].append([k, corruption(False)])
            elif mode == "grad":
                if rng.random() < 0.8:
                    op["x"].append([-1, corruption(False)])
            else:
                for _ in range(rng.choice([0, 1, 1, 1, 2])):
                    op["x"].append([rng.randrange(4), corruption(True)])
            ops.append(op)
        return dict(cfg=cfg, ops=ops)

    def directed(self):
        """A floor of coverage: every path meets a failing solve at every place it can meet one."""
        o = dict(mode="eager", par=dict(s=1), guess="zero", c=0, x=[])
        for sol in ("spsolve", "cg"):
            cfg = dict(path="newton", fam="nonlinear", sol=sol, sym=1, bc="A", chk=1, tau=1e-2, raising=1, maxit=4)
            yield dict(cfg=cfg, ops=[dict(o, x=[[k, ["scale", -1.0]]]) for k in range(4)] +
                       [dict(o, guess="rand", x=[[k, ["nan", 3]]]) for k in (0, 3)])
            yield dict(cfg=dict(cfg, raising=0, maxit=25), ops=[
                dict(o, mode=m, x=[[k, c]]) for m in ("eager", "jit") for k, c in ((1, ["scale", -1.0]), (0, ["nan", 2]), (2, ["zero"]))] +
                [dict(o, mode="grad", x=[[-1, c]]) for c in (["scale", 1.02], ["scale", 1.005], ["nan", 1])])
        for path, fam, sol in [("linear", "diffusion", "spsolve"), ("linear", "elastic", "cholmod"), ("linear", "couple", "gmres"),
                               ("linear", "diffusion", "cg"), ("periodic", "diffusion", "cg"), ("periodic", "diffusion", "spsolve")]:
            cfg = dict(path=path, fam=fam, sol=sol, sym=1, bc="A", chk=1, tau=1e-2)
            yield dict(cfg=cfg, ops=[dict(o, mode=m, x=[[k, c]]) for m, k in (("eager", 0), ("jit", 0), ("grad", 1))
                                     for c in (["scale", 1.02], ["scale", 1.005], ["nan", 1], ["zero"])])
        # checking switched on for one direction only
        for path, fam, sol in [("linear", "diffusion", "cg"), ("linear", "elastic", "spsolve"), ("periodic", "diffusion", "cg"),
                               ("periodic", "diffusion", "spsolve"), ("newton", "nonlinear", "spsolve")]:
            for chk in (0, 1):
                cfg = dict(path=path, fam=fam, sol=sol, sym=1, bc="A", chk=chk, tau=1e-2, adj=dict(sol=sol, chk=1 - chk, tau=1e-1))
                if path == "newton":
                    cfg.update(raising=1, maxit=25)
                yield dict(cfg=cfg, ops=[dict(o, mode="grad", x=[[-1 if path == "newton" else 1, c]])
                                         for c in (["scale", 1.3], ["scale", 1.05], ["zero"])] +
                           ([] if path == "newton" else [dict(o, x=[[0, c]]) for c in (["scale", 1.3], ["scale", 1.005], ["zero"])]))
        for path, sol in [("extra", "cg"), ("extra", "spsolve"), ("amg", "amg")]:
            cfg = dict(path=path, fam="nonlinear", sol=sol, sym=1, bc="A", chk=1, tau=1e-2)
            yield dict(cfg=cfg, ops=[dict(o, x=[[k, c]]) for k in (0, 2) for c in (["scale", -1.0], ["nan", 1])] +
                       [dict(o, mode="grad", x=[[-1, c]]) for c in (["scale", 1.02], ["scale", 1.005])])

    # ------------------------------------------------------------- executor
    def solver(self, cfg):
        k = repr(sorted(cfg.items()))
        if k in self.solvers:
            return self.solvers[k]
        fe = self.fe
        fam = cfg["fam"]
        pk = fam + ("^" if cfg.get("view") else "")
        if pk not in self.problems:
            self.problems[pk] = fs.build(fam, KEY, upper=bool(cfg.get("view")))
        pr = self.problems[pk]
        bc = fs.make_bc(pr, fam, cfg["bc"])
        o = p03.options(fe, cfg["sol"])
        import dataclasses
        o = dataclasses.replace(o, check_convergence=bool(cfg["chk"]), convergence_threshold=cfg["tau"])
        kw = {}
        if "adj" in cfg:
            a = cfg["adj"]
            kw["adjoint_solver_options"] = dataclasses.replace(
                p03.options(fe, a["sol"]), check_convergence=bool(a["chk"]), convergence_threshold=a["tau"])
        if cfg["path"] == "periodic":
            import jax.numpy as jnp
            from feax.flat.pbc import PeriodicPairing, prolongation_matrix
            pair = PeriodicPairing(location_master=lambda p: jnp.isclose(p[1], 0.0, atol=1e-8),
                                   location_slave=lambda p: jnp.isclose(p[1], 1.0, atol=1e-8),
                                   mapping=lambda p: p + np.array([0.0, 1.0]), vec=0)
            kw["P"] = prolongation_matrix([pair], pr.mesh[0], 1)
        if cfg["path"] == "extra":
            kw["extra_residual_fn"] = lambda s: p03.EXTRA * s ** 3
        if cfg["path"] not in ("linear", "periodic"):
            kw["newton_options"] = fe.NewtonOptions(tol=NTOL, rel_tol=NREL, max_iter=cfg.get("maxit", 25),
                                                    raise_on_line_search_failure=bool(cfg.get("raising", 1)))
        tp = fs.traced(pr, fs.params(p03.ref(fam, KEY), dict(s=1)))
        if cfg["sol"] == "amg":
            kw["traced_params"] = tp
        sv = fe.create_solver(pr, bc, o, linear=cfg["path"] == "linear", symmetric_elimination=bool(cfg["sym"]), **kw)
        if len(self.solvers) > 40:
            self.solvers.clear()
        self.solvers[k] = (sv, pr, bc, {})
        return self.solvers[k]

    def execute(self, plan, res):
        cfg = plan["cfg"]
        ds.fresh_uid()
        SEAM.arm({})
        SEAM.last = None
        with contextlib.redirect_stdout(io.StringIO()):
            sv = self.solver(cfg)
        fired = 0
        for n, op in enumerate(plan["ops"]):
            res.steps += 1
            x = {}
            for k, m in op["x"]:
                x[k] = m
            what = f"op {n} {cfg['path']}/{cfg['sol']} {cfg['fam']} {op['mode']}"
            SEAM.last = None
            tag = self.one(cfg, sv, op, x, what, res)
            fired += sum(1 for c in SEAM.calls if c[2])
            for i, c in enumerate(SEAM.calls):
                if c[2]:
                    res.faults["solve-" + c[2][0]] += 1
                    where = "first" if i == 0 else "last" if i == len(SEAM.calls) - 1 else "middle"
                    res.states.add(f"{cfg['path']}|{cfg['sol']}|{op['mode']}|{where}|{c[2][0]}|{tag}")
            res.probes[f"{cfg['path']}:{op['mode']}:{tag}"] += 1
            res.sim_time += len(SEAM.calls)
            res.ev(n, tag, len(SEAM.calls))
        res.nontrivial = fired > 0

    def one(self, cfg, sv, op, x, what, res):
        fe, jax = self.fe, self.jax
        jnp = jax.numpy
        solver, pr, bc, jits = sv
        R = p03.ref(cfg["fam"], KEY)
        p = fs.params(R, op["par"])
        tp = fs.traced(pr, p)
        rows, vals = R.bc(cfg["bc"])
        g = np.zeros(R.n)
        if op["guess"] == "rand":
            g = np.random.RandomState(5).uniform(-0.4, 0.4, R.n)
        if cfg["path"] == "periodic":
            P = p03.prolong(R)
            g = P @ (P.T @ g / P.sum(0))
        g[rows] = vals
        ga = jnp.asarray(g)

        def call(tp_, g_):
            return jnp.asarray(solver(tp_, g_).dofs)
        w = jnp.asarray(p03.weights(R.n, op["c"]))
        mode = op["mode"]
        if mode == "grad" and -1 in x:               # corrupt the adjoint solve: the last one
            SEAM.arm({})
            with contextlib.redirect_stdout(io.StringIO()):
                np.asarray(call(tp, ga))
            x = {len(SEAM.calls): x[-1]}
            SEAM.last = None
        SEAM.arm(x)
        del self.warned[:]
        err = out = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if mode == "eager":
                    out = np.asarray(call(tp, ga))
                elif mode == "jit":
                    if "jit" not in jits:
                        jits["jit"] = jax.jit(call)
                    out = np.asarray(jits["jit"](tp, ga))
                elif mode == "vmap":
                    q = p03.History.lane(p, "par")
                    two = jax.tree_util.tree_map(lambda a, b: jnp.stack([a, b]), tp, fs.traced(pr, q))
                    if "vmap" not in jits:
                        jits["vmap"] = jax.jit(jax.vmap(call, in_axes=(0, None)))
                    out = np.asarray(jits["vmap"](two, ga))
                else:
                    f = lambda t, w_: jnp.dot(w_, call(t, ga))                        # noqa
                    v, gr = jax.value_and_grad(f)(tp, w)
                    out = [np.asarray(v)] + [np.asarray(a) for a in gr.volume_vars]
        except Exception as e:
            err = e
        calls = list(SEAM.calls)
        if cfg["path"] in ("linear", "periodic"):
            return self.judge_linear(cfg, R, p, rows, vals, g, op, out, err, calls, what)
        if mode == "grad":
            return self.judge_grad(cfg, R, p, rows, vals, op, out, err, calls[-1:], what)
        if mode == "vmap":
            return self.judge_lanes(cfg, R, [p, p03.History.lane(p, "par")], rows, g, out, err, calls, what)
        return self.judge_newton(cfg, R, p, rows, vals, g, op, out, err, calls, what)

    # -------------------------------------------------------------- judging
    def operator(self, cfg, R, p, rows, U):
        """Dirichlet-applied tangent and residual of the equations the linear solver is given."""
        r, J = R.residual(U, p, jac=True)
        if cfg["path"] == "extra":
            r = r + p03.EXTRA * U ** 3
            J = J + np.diag(3 * p03.EXTRA * U ** 2)
        vals = R.bc(cfg["bc"])[1]
        J = J.copy()
        J[rows] = 0.0
        if cfg["sym"]:
            J[:, rows] = 0.0
        J[rows, rows] = 1.0
        r = r.copy()
        r[rows] = U[rows] - vals
        return J, r

    def verdict(self, cfg, A, b, x):
        """True: converged, False: not, None: too close to call."""
        with np.errstate(all="ignore"):
            rel = np.linalg.norm(A @ x - b) / (np.linalg.norm(b) + 1e-12)
        if not np.isfinite(rel):
            return False
        if abs(rel / cfg["tau"] - 1) < 0.02 or (rel < 1e-9 and cfg["tau"] < 1e-8):
            return None
        return bool(rel < cfg["tau"])

    def judge_linear(self, cfg, R, p, rows, vals, g, op, out, err, calls, what):
        direct = cfg["sol"] in p03.DIRECT
        bad = [c for c in calls if c[2]]
        if err is not None:
            if direct and any(not np.isfinite(c[1]).all() for c in bad):
                return "exc"                                    # a direct backend may refuse a non-finite vector
            raise Violation("valid-operation-failed", f"{what}: {type(err).__name__}: {str(err)[:300]}")
        P = p03.prolong(R) if cfg["path"] == "periodic" else np.eye(R.n)
        if op["mode"] == "grad":
            lanes = [p]
        elif op["mode"] == "vmap":
            lanes = [p, p03.History.lane(p, "par")]
        else:
            lanes = [p]
        if len(calls) == 1 and len(lanes) == 2:                 # one block-diagonal solve for the whole batch
            b, x, m = calls[0]
            k = len(b) // 2
            calls = [(b[:k], x[:k], m), (b[k:], x[k:], m)]
        need = len(lanes) + (op["mode"] == "grad")
        if len(calls) != need:
            raise Violation("inner-solves", f"{what}: {len(calls)} inner linear solves instead of {need}")
        ok = None
        for i, q in enumerate(lanes):
            A, r = self.operator(cfg, R, q, rows, g)
            A, b = P.T @ A @ P, -P.T @ r
            if not np.allclose(calls[i][0], b, rtol=1e-7, atol=1e-9):
                continue                                        # solved in another order or scaling
            x = calls[i][1]
            ok = self.verdict(cfg, A, b, x) if cfg["chk"] else True
            if op["mode"] == "grad":
                break
            got = out[i] if op["mode"] == "vmap" else out
            want = g + P @ x
            if ok is None:
                continue
            if ok and not np.isfinite(x).all():
                if np.isfinite(got).all():
                    raise Violation("unconverged-returned", f"{what}: a non-finite vector became a finite answer")
            elif ok:
                if not np.allclose(got, want, rtol=1e-9, atol=1e-9, equal_nan=True):
                    raise Violation("answer-changed", f"{what}: the answer of the linear solver was altered "
                                    f"(largest difference {np.nanmax(np.abs(got - want)):.3g})")
            elif not np.isnan(got).all():
                rel = np.linalg.norm(A @ x - b) / np.linalg.norm(b)
                raise Violation("unconverged-returned", f"{what}: relative residual {rel:.3g} misses the threshold "
                                f"{cfg['tau']:g} and the answer is not NaN ({int(np.isfinite(got).sum())} finite values)")
        if op["mode"] == "grad":
            if ok is not True:
                return "forward-nan" if ok is False else "close"
            U = g + P @ calls[0][1]
            return self.judge_adjoint(cfg, R, p, rows, op, U, P, out, calls[1], what)
        return "nan" if ok is False else "close" if ok is None else "ok"

    def judge_grad(self, cfg, R, p, rows, vals, op, out, err, last, what):
        if err is not None:
            if last and last[0][2] and not np.isfinite(last[0][1]).all():
                return "exc"
            if type(err).__name__ == "NewtonLineSearchError" and cfg.get("maxit", 25) < 10:
                return "exc"
            raise Violation("valid-operation-failed", f"{what}: {type(err).__name__}: {str(err)[:300]}")
        if cfg.get("maxit", 25) < 10:
            return "unconverged"
        U = p03.reference(cfg["fam"], KEY, op["par"], cfg["bc"], 1.0, "extra" if cfg["path"] == "extra" else "plain")[0]
        return self.judge_adjoint(cfg, R, p, rows, op, U, np.eye(R.n), out, last[0], what)

    def judge_adjoint(self, cfg, R, p, rows, op, U, P, out, call, what):
        b, lam, m = call
        cfg = dict(cfg, **cfg.get("adj", {}))
        if not fs.FAMILIES[cfg["fam"]]["sym"] and cfg["sol"] not in p03.DIRECT and cfg["sym"]:
            return "skipped"
        if not np.isfinite(U).all():
            return "skipped"
        J, _ = self.operator(cfg, R, p, rows, U)
        A = P.T @ J.T @ P
        w = P.T @ p03.weights(R.n, op["c"])
        if not np.allclose(b, w, rtol=1e-6, atol=1e-9):
            return "skipped"
        ok = self.verdict(cfg, A, w, lam) if cfg["chk"] else True
        if ok is None:
            return "close"
        full = P @ lam
        free = np.setdiff1d(np.arange(R.n), rows)
        scale = 1e-9 + np.abs(out[1]).max() if np.isfinite(out[1]).all() else 1.0
        if ok is False:
            if np.isfinite(out[1]).any():
                raise Violation("unconverged-gradient", f"{what}: the adjoint solve misses the threshold and the "
                                "gradient holds finite values "
                                f"(relative residual {np.linalg.norm(A @ lam - w) / np.linalg.norm(w):.3g})")
            return "nan"
        lf = np.zeros(R.n)
        lf[free] = full[free]
        if not np.isfinite(lf).all():
            return "skipped"
        for i in range(len(p["vol"])):
            d = np.random.RandomState(21 + i).uniform(-1, 1, p["vol"][i].shape)
            q = dict(p, vol=[v + (1e-30j * d if j == i else 0) for j, v in enumerate(p["vol"])])
            want = -np.dot(lf, R.residual(U, q).imag) / 1e-30
            got = np.dot(out[1 + i], d)
            if not abs(got - want) <= 2e-5 * (abs(want) + scale):
                raise Violation("gradient-changed", f"{what}: the gradient is not that of the adjoint solution "
                                f"({got:.6g} instead of {want:.6g})")
        return "ok"

    def judge_lanes(self, cfg, R, lanes, rows, g, out, err, calls, what):
        """A batch of Newton solves: a lane whose directions were right is not affected by the other one."""
        if err is not None:
            if any(not np.isfinite(c[1]).all() for c in calls) and cfg["sol"] in p03.DIRECT:
                return "exc"
            raise Violation("valid-operation-failed", f"{what}: {type(err).__name__}: {str(err)[:300]}")
        tags = []
        for i, q in enumerate(lanes):
            hit = False
            for k, (b, x, m) in enumerate(calls):
                hit |= m is not None and (len(b) == 2 * R.n or k % 2 == i)
            if hit:                                             # where a failed line search leaves it is not specified
                tags.append("hit")
                continue
            r0 = np.linalg.norm(self.operator(cfg, R, q, rows, g)[1])
            goal = max(NTOL, NREL * r0)
            rn = np.linalg.norm(self.operator(cfg, R, q, rows, out[i])[1]) if np.isfinite(out[i]).all() else np.inf
            if not rn <= r0 * (1 + 1e-9) + 1e-12:
                raise Violation("worse-than-start", f"{what}: lane {i} has residual {rn:.3g}, start {r0:.3g}, and its "
                                "directions were right")
            ok = rn <= goal * (1 + 1e-3) + 1e-12
            if not ok and cfg.get("maxit", 25) > 10:
                raise Violation("stopped-early", f"{what}: lane {i} stopped at residual {rn:.3g} (goal {goal:.3g}) although "
                                "its directions were right")
            tags.append("ok" if ok else "stopped")
        return "+".join(tags)

    def judge_newton(self, cfg, R, p, rows, vals, g, op, out, err, calls, what):
        r0 = np.linalg.norm(self.operator(cfg, R, p, rows, g)[1])
        amg = cfg["path"] == "amg"
        norms = [np.linalg.norm(c[0]) for c in calls]
        for k, v in enumerate(norms):
            if not np.isfinite(v):
                raise Violation("iterated-from-rejected-step", f"{what}: iteration {k} starts from a non-finite state")
            if k and not (v < norms[k - 1] or amg and v <= norms[k - 1]):
                raise Violation("iterated-from-rejected-step", f"{what}: iteration {k} starts from residual {v:.6g}, "
                                f"not below {norms[k - 1]:.6g} of the iteration before")
        bad_last = bool(calls and calls[-1][2])
        limit = cfg.get("maxit", 25)
        if err is not None:
            if cfg["path"] == "newton" and type(err).__name__ == "NewtonLineSearchError":
                if not cfg["raising"] or op["mode"] != "eager":
                    raise Violation("raised-although-off", f"{what}: {err}")
                if not bad_last:
                    raise Violation("spurious-failure", f"{what}: {err}")
                return "raised"
            if cfg["sol"] in p03.DIRECT and any(not np.isfinite(c[1]).all() for c in calls):
                return "exc"
            raise Violation("valid-operation-failed", f"{what}: {type(err).__name__}: {str(err)[:300]}")
        with np.errstate(all="ignore"):
            rn = np.linalg.norm(self.operator(cfg, R, p, rows, out)[1]) if np.isfinite(out).all() else np.inf
        goal = max(NTOL, NREL * r0)
        conv = rn <= goal * (1 + 1e-3) + 1e-12
        if cfg["path"] == "newton":
            if conv:
                return "ok"
            if len(calls) >= limit and rn < norms[-1]:          # the last step was accepted too
                return "limit"
            if cfg["raising"] and op["mode"] == "eager":
                raise Violation("unconverged-returned", f"{what}: Newton returned after {len(calls)} of {limit} "
                                f"iterations with residual {rn:.3g} (goal {goal:.3g}) and no error")
            if not bad_last:
                raise Violation("stopped-early", f"{what}: Newton stopped after {len(calls)} of {limit} iterations with "
                                f"residual {rn:.3g} (goal {goal:.3g}) although its last direction was right")
            return "stopped"
        if not rn <= r0 * (1 + 1e-9):
            raise Violation("worse-than-start", f"{what}: returned state has residual {rn:.3g}, start {r0:.3g}")
        said = any("converge" in m.lower() for m in self.warned)
        if conv and said and rn < goal * 0.99:
            raise Violation("false-warning", f"{what}: converged ({rn:.3g}) but reported {self.warned}")
        if rn > goal * 1.01 + 1e-12 and not said:
            raise Violation("unconverged-unreported", f"{what}: returned with residual {rn:.3g} (goal {goal:.3g}) "
                            "and nothing was reported")
        if not conv and not bad_last and len(calls) < limit:
            raise Violation("stopped-early", f"{what}: stopped after {len(calls)} iterations at {rn:.3g} although its "
                            "last direction was right")
        return "ok" if conv else "reported"


NTOL, NREL = 1e-8, 1e-9
SCENARIOS = [Unconverged()]
