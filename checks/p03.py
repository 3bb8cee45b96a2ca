"""P03 - every answer of a solver satisfies the equations it was asked to solve, whatever was solved before."""
import contextlib
import io
import os

import numpy as np

from checks import femsys as fs
from sim import directsys as ds
from sim.core import Scenario, Violation

RULE = ("A plan is a history over 1-3 finite element problems: solvers are created (linear / Newton / periodic / "
        "with an extra residual term; direct, Krylov and AMG backends; with and without a TracedStructure and a "
        "sample of the parameters), called eagerly, under jit, under vmap and under grad with changing parameters, "
        "boundary values and initial guesses, and systems are assembled, while backend calls fail, user code fails "
        "while it is traced, parameters are NaN or of a wrong shape, and JAX's caches are dropped. Every finite "
        "answer is compared with an independent dense finite element model. Non-trivial: at least two answers of "
        "one problem were compared, or a fault fired before an answer that was compared.")
STATE_MEASURE = "distinct (family, mesh, solver, path, mode, fault, outcome) tuples of an operation and its predecessor"
REAL = ("feax.Problem/fe/basis, feax.assembler, feax.TracedStructure/TracedParams, feax.DirichletBC, feax.solver and "
        "feax.solvers (linear, newton, reduced, amg, common, options, direct), feax.flat.pbc, feax.asd, JAX, CHOLMOD, "
        "UMFPACK, SuperLU, PyAMG")
STUB = "failures raised at direct-backend call boundaries and inside user code while it is traced"
ASSUMPTIONS = [
    "the reference (dense numpy finite elements, complex-step tangent, Newton to 1e-13) is correct; it was written "
    "from the weak form, not from feax",
    "a Newton guess under symmetric elimination carries the prescribed boundary values (documented)",
    "with symmetric elimination, gradients with a Krylov adjoint are only asked of symmetric tangents (documented J = J^T)",
    "the solver chosen for a sample is used with parameters of the same character (symmetric stays symmetric)"]
CONFIG = dict(quick=dict(wall_s=140, runs=4000, shrink_s=60, plan_s=400),
              thorough=dict(wall_s=2400, runs=10 ** 9, shrink_s=180, plan_s=400))

_REF, _SOL = {}, {}


def ref(fam, key):
    if (fam, key) not in _REF:
        _REF[fam, key] = fs.Ref(fam, key)
    return _REF[fam, key]


def prolong(R):
    """Classes of a domain periodic from bottom to top: node -> class, as a dense 0/1 matrix (scalar problems)."""
    cls, n = {}, 0
    for i, x in enumerate(R.pts):
        if abs(x[1] - 1) < 1e-9:
            continue
        cls[i] = n
        n += 1
    P = np.zeros((R.n, n))
    for i, x in enumerate(R.pts):
        j = i if i in cls else next(k for k in cls if abs(R.pts[k][1]) < 1e-9 and abs(R.pts[k][0] - x[0]) < 1e-9)
        P[i, cls[j]] = 1.0
    return P


EXTRA = 0.15


def reference(fam, key, par, bck, scale, kind, cvec=None):
    """Solution (and, with cvec, gradient pieces) of the equations the solver was asked to solve."""
    k = (fam, key, repr(par), bck, scale, kind, None if cvec is None else cvec)
    if k in _SOL:
        return _SOL[k]
    R = ref(fam, key)
    p = fs.params(R, par)
    rows, vals = R.bc(bck, scale)
    P = prolong(R) if kind == "periodic" else np.eye(R.n)
    U = np.zeros(R.n)
    U[rows] = vals
    held = np.unique(np.nonzero(P[rows])[1])
    free = np.setdiff1d(np.arange(P.shape[1]), held)
    Pf = P[:, free]

    def rj(U):
        r, J = R.residual(U, p, jac=True)
        if kind == "extra":
            r = r + EXTRA * U ** 3
            J = J + np.diag(3 * EXTRA * U ** 2)
        return r, J
    for it in range(60):
        r, J = rj(U)
        d = np.linalg.solve(Pf.T @ J @ Pf, -Pf.T @ r)
        n0, step = np.linalg.norm(Pf.T @ r), 1.0
        while step > 1e-3:
            V = U + step * Pf @ d
            if n0 < 1e-9 or np.linalg.norm(Pf.T @ rj(V)[0]) < n0 * (1 - 0.1 * step):
                break
            step /= 2
        U = V
        if np.abs(d).max(initial=0.0) * step < 1e-13 * (1 + np.abs(U).max()):
            break
    else:
        raise RuntimeError("reference did not converge")
    out = [U]
    if cvec is not None:
        c = weights(R.n, cvec)
        r, J = rj(U)
        lam = Pf @ np.linalg.solve((Pf.T @ J @ Pf).T, Pf.T @ c)
        # a held class takes the mean of the values prescribed for its members
        g = P @ ((P.T @ (c - J.T @ lam)) / P.sum(0))
        out += [lam, g[rows]]
    if len(_SOL) > 4000:
        _SOL.clear()
    _SOL[k] = out
    return out


def weights(n, seed):
    return np.random.RandomState(seed).uniform(-1, 1, n)


TOL = dict(direct=1e-7, krylov=2e-6, newton=2e-6)
DIRECT = ("spsolve", "umfpack", "cholmod", "auto", "dauto")


def options(fe, kind):
    if kind in ("spsolve", "umfpack", "cholmod"):
        return fe.DirectSolverOptions(solver=kind)
    if kind == "auto":
        return None
    if kind == "dauto":
        return fe.DirectSolverOptions()
    if kind == "kauto":
        return fe.KrylovSolverOptions(tol=1e-13, atol=1e-13)
    if kind == "amg":
        return fe.AMGSolverOptions(tol=1e-12, atol=1e-13)
    if kind == "jcg":
        return fe.KrylovSolverOptions(solver="cg", tol=1e-13, atol=1e-13, use_jacobi_preconditioner=True)
    return fe.KrylovSolverOptions(solver=kind, tol=1e-13, atol=1e-13)


def mode_plain(op):
    return op["mode"] in ("eager", "jit")


class History(Scenario):
    prop, name = "P03", "history"
    shrink_lists = ("ops",)

    def setup(self):
        ds.setup()
        ds.BACKEND.install()
        import jax
        jax.config.update("jax_enable_x64", True)
        import feax as fe
        cache = os.path.join(os.environ.get("SIM_SCRATCH") or "/tmp", "jaxcache")
        jax.config.update("jax_compilation_cache_dir", cache)
        jax.config.update("jax_persistent_cache_min_compile_time_secs", 0.0)
        jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
        self.fe, self.jax = fe, jax

    # ------------------------------------------------------------ generator
    def gen(self, rng):
        probs = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            fam = rng.choice(["diffusion", "diffusion", "nonlinear", "elastic", "couple"])
            key = rng.choice("bbbbbbcccaad")
            probs.append([fam, key, 2 if fam != "couple" and rng.random() < 0.08 else int(rng.random() < 0.25)])
        if len(probs) > 1 and rng.random() < 0.5:
            probs[1] = [probs[0][0], rng.choice([probs[0][1], "a", "b", "c"]), probs[1][2]]
        ops, handles = [], []

        def par():
            last = [o["par"] for o in ops if o.get("par")][-1:]
            if last and rng.random() < 0.25:
                return dict(last[0], roll=(last[0].get("roll", 0) + 1) % 3)
            s = dict(s=rng.randrange(6))
            if rng.random() < 0.25:
                s["sz"] = 1
            if rng.random() < 0.2:
                s["vz"] = 1
            return s

        def fault(create):
            x = rng.random()
            if x < 0.72:
                return None
            if x < 0.84:
                return ["call", rng.randrange(3), rng.choice(["before", "after"])]
            if create or x < 0.90:
                return ["abort", rng.choice([1, 1, 2, 3])]
            return [rng.choice(["nan", "shape"])]

        def create():
            pi = rng.randrange(len(probs))
            fam, key, free = probs[pi]
            f = fs.FAMILIES[fam]
            bck = rng.choice("ABC")
            path = "linear" if f["linear"] and rng.random() < 0.65 else "newton"
            sym = rng.random() < 0.75
            pool = ["spsolve", "spsolve", "umfpack", "umfpack", "auto", "dauto", "gmres", "bicgstab", "kauto", "kauto"]
            if f["sym"] and sym:
                pool += ["cholmod", "cholmod", "cg", "cg", "jcg", "amg"]
            sol = rng.choice(pool)
            x = rng.random()
            if free == 2:                  # one triangle is stored: Cholesky reads just that
                sol, sym, x = "cholmod", True, 1.0
            if x < 0.12 and fam == "diffusion" and not free:
                path, bck, sym = "periodic", "A", True
                sol = rng.choice(["cg", "cg", "gmres", "spsolve", "cholmod"])
            elif x < 0.24 and fam in ("diffusion", "nonlinear") and sym:
                path = "extra"
                sol = rng.choice(["cg", "gmres", "spsolve", "umfpack"])
            sample = par() if (sol in ("auto", "dauto", "kauto", "amg") or rng.random() < 0.5) else None
            adj = None
            if free != 2 and rng.random() < 0.25:
                adj = rng.choice({"periodic": ["cg", "gmres", "spsolve", "umfpack"], "extra": [sol]}.get(path) or
                                 [q for q in pool if q not in ("auto", "dauto", "kauto", "amg")])
                if path == "extra":
                    adj = rng.choice(["cg", "gmres"] if sol in ("cg", "gmres") else ["spsolve", "umfpack", "cholmod"])
            h = len(handles) if len(handles) < 3 or rng.random() < 0.5 else rng.randrange(len(handles))
            op = dict(op="create", h=h, p=pi, bc=bck, sol=sol, path=path, sym=int(sym), sample=sample,
                      adj=adj, own=int(rng.random() < 0.3), ts=1 if free == 1 else int(rng.random() < 0.4), fault=fault(True))
            while len(handles) <= h:
                handles.append(None)
            handles[h] = op
            return op

        ops.append(create())
        for _ in range(rng.randrange(3, 8)):
            x = rng.random()
            if x < 0.22:
                ops.append(create())
            elif x < 0.30:
                ops.append(dict(op="assemble", p=rng.randrange(len(probs)), par=par(), u=rng.randrange(3)))
            elif x < 0.34:
                ops.append(dict(op="clear"))
            else:
                h = rng.randrange(len(handles))
                c = handles[h]
                y = rng.random()
                mode = "eager" if y < 0.5 else "jit" if y < 0.65 else "vmap" if y < 0.8 else "grad"
                if (c["path"] == "extra" or (c["path"], c["sol"]) == ("newton", "amg")) and mode in ("jit", "vmap"):
                    mode = "eager"
                ops.append(dict(op="solve", h=h, par=par(), scale=rng.choice([None, None, None, 0.5, -1.0, 2.0]),
                                guess=rng.choice(["none", "none", "zero", "prev", "rand"]), mode=mode,
                                vm=rng.choice(["par", "bc", "surf"]), c=rng.randrange(3),
                                ts=c["ts"] if probs[c["p"]][2] == 1 else int(rng.random() < 0.4), fault=fault(False)))
        return dict(probs=probs, ops=ops)

    def directed(self):
        """A floor of coverage: every solver path once, through a history of changing inputs."""
        table = [("diffusion", "linear", ["spsolve", "umfpack", "cholmod", "cg", "auto", "amg"]),
                 ("diffusion", "newton", ["cholmod"]), ("diffusion", "periodic", ["cg", "spsolve"]),
                 ("diffusion", "extra", ["cg", "spsolve"]), ("nonlinear", "newton", ["spsolve", "cg", "umfpack", "amg"]),
                 ("nonlinear", "extra", ["gmres"]), ("elastic", "linear", ["cholmod", "jcg", "auto"]),
                 ("elastic", "newton", ["umfpack"]), ("couple", "linear", ["umfpack", "bicgstab"]),
                 ("couple", "newton", ["spsolve"])]
        i = 0
        for fam, path, sols in table:
            for sol in sols:
                i += 1
                sym = int(fam != "couple" or i % 2)
                sv = dict(op="solve", h=0, scale=None, guess="none", mode="eager", vm="par", c=0, ts=i % 2, fault=None)
                yield dict(probs=[[fam, "b", 0]], ops=[
                    dict(op="create", h=0, p=0, bc="A" if path == "periodic" else "ABC"[i % 3], sol=sol, path=path,
                         sym=sym, sample=dict(s=3, sz=1), ts=(i // 2) % 2, fault=None),
                    dict(sv, par=dict(s=0)), dict(sv, par=dict(s=1), scale=0.5, guess="prev"),
                    dict(sv, par=dict(s=2), scale=2.0, mode="grad", c=1),
                    dict(sv, par=dict(s=4, sz=1), mode="eager" if path == "extra" or (path, sol) == ("newton", "amg") else "vmap",
                         vm=["par", "bc", "surf"][i % 3]),
                    dict(sv, par=dict(s=0), scale=-1.0), dict(sv, par=dict(s=0, roll=1), scale=-1.0)])
        for fam, path, sol, adj, view in [("elastic", "linear", "cholmod", None, 2), ("nonlinear", "newton", "cholmod", None, 2),
                                          ("diffusion", "linear", "cholmod", "cg", 0), ("couple", "linear", "gmres", "umfpack", 0),
                                          ("nonlinear", "newton", "umfpack", "gmres", 0)]:
            sv = dict(op="solve", h=0, scale=None, guess="none", mode="eager", vm="par", c=0, ts=0, fault=None)
            yield dict(probs=[[fam, "b", view]], ops=[
                dict(op="create", h=0, p=0, bc="A", sol=sol, path=path, sym=1, sample=dict(s=3), adj=adj, ts=0, fault=None),
                dict(sv, par=dict(s=0)), dict(sv, par=dict(s=2), scale=2.0, mode="grad", c=1),
                dict(sv, par=dict(s=1), scale=0.5, guess="prev", ts=1), dict(sv, par=dict(s=1), mode="grad", c=0)])
        for sol in ("dauto", "kauto"):
            mk = dict(op="create", sol=sol, path="linear", sample=dict(s=1), ts=0, fault=None)
            sv = dict(op="solve", scale=None, guess="none", mode="eager", vm="par", c=0, ts=0, fault=None)
            yield dict(probs=[["elastic", "b", 0], ["couple", "b", 0]], ops=[
                dict(mk, h=0, p=0, bc="A", sym=1), dict(sv, h=0, par=dict(s=0)), dict(mk, h=1, p=1, bc="B", sym=0),
                dict(sv, h=1, par=dict(s=0)), dict(sv, h=1, par=dict(s=2), mode="grad", c=1),
                dict(mk, h=2, p=0, bc="A", sym=1), dict(sv, h=2, par=dict(s=1), mode="grad", c=1),
                dict(sv, h=0, par=dict(s=4), scale=2.0, guess="prev", c=1)])
        for sol in ("umfpack", "cholmod", "spsolve"):
            mk = dict(op="create", bc="A", sol=sol, path="linear", sym=1, sample=None, ts=0, fault=None)
            sv = dict(op="solve", scale=None, guess="none", mode="eager", vm="par", c=0, ts=0, fault=None)
            yield dict(probs=[["diffusion", "b", 0], ["diffusion", "a", 0]], ops=[
                dict(mk, h=0, p=0), dict(mk, h=1, p=1), dict(sv, h=0, par=dict(s=0), mode="jit"),
                dict(sv, h=1, par=dict(s=0)), dict(sv, h=0, par=dict(s=0), mode="vmap"),
                dict(sv, h=1, par=dict(s=0), mode="vmap", vm="bc"), dict(op="clear"),
                dict(sv, h=0, par=dict(s=1), mode="jit"), dict(sv, h=1, par=dict(s=1))])

    # ------------------------------------------------------------- executor
    def problem(self, st, i):
        if i not in st["P"]:
            fam, key, free = st["plan"]["probs"][i]
            pr = fs.build(fam, key, upper=free == 2)
            ts = self.fe.TracedStructure.from_problem(pr, free_scratch=free == 1)
            st["P"][i] = (pr, ts)
        return st["P"][i]

    def execute(self, plan, res):
        fe, jax = self.fe, self.jax
        ds.fresh_uid()
        fs.fresh_classes()
        st = dict(plan=plan, P={}, H={}, O={}, B={}, seen={}, checked=0, fired=0)
        prev = "-"
        for n, op in enumerate(plan["ops"]):
            res.steps += 1
            res.sim_time += 1
            if op["op"] == "clear":
                jax.clear_caches()
                res.faults["caches-dropped"] += 1
                res.ev(n, "clear")
                prev = "clear"
                continue
            if op["op"] == "assemble":
                if op["p"] < len(plan["probs"]):
                    self.assemble(st, op, n, res)
                continue
            fault = op.get("fault")
            fired = []
            fs.ABORT[0] = 0
            if fault and fault[0] == "call":
                ds.BACKEND.arm({fault[1]: fault[2]}, lambda name, kind: fired.append(f"backend-{kind}"))
            elif fault and fault[0] == "abort":
                fs.ABORT[0] = fault[1]
            else:
                ds.BACKEND.arm({}, None)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    out = self.create(st, op) if op["op"] == "create" else self.solve(st, op)
                kind = "ok"
            except Violation:
                raise
            except Exception as e:
                out, kind = e, "exc"
            finally:
                ds.BACKEND.disarm()
                left, fs.ABORT[0] = fs.ABORT[0], 0
            if fault and fault[0] == "abort" and left == 0:
                fired.append("user-code-abort")
            if fault and fault[0] in ("nan", "shape") and op["op"] == "solve":
                fired.append(fault[0])
            for f in fired:
                res.faults[f] += 1
                st["fired"] += 1
            what = self.describe(plan, st, op)
            if out is None and kind == "ok" and op["op"] == "solve":      # no such handle
                continue
            if kind == "exc" and not fired:
                if op["op"] == "solve" and isinstance(out, fs.UserAbort):
                    raise Violation("stale-failure", f"op {n} {what}: an earlier failure came back: {out}")
                raise Violation("valid-operation-failed",
                                f"op {n} {what}: {type(out).__name__}: {str(out)[:300]}")
            outcome = kind
            if op["op"] == "solve" and kind == "ok":
                outcome = self.judge(st, op, out, fired, n, what)
            res.ev(n, op["op"], outcome, tuple(fired))
            tag = what + "|" + ",".join(fired) + "|" + outcome
            res.states.add(prev + " -> " + tag)
            res.probes[f"{op['op']}:{self.handle(st, op)}:{outcome}"] += 1
            prev = tag
        res.nontrivial = st["checked"] >= 2 or (st["fired"] > 0 and st["checked"] > 0)

    def handle(self, st, op):
        c = op if op["op"] == "create" else st["H"].get(op["h"], (None, {}))[1]
        return f"{c.get('path')}/{c.get('sol')}" + (f"+{c['adj']}" if c.get("adj") else "") + ("" if op["op"] == "create" else "/" + op["mode"])

    def describe(self, plan, st, op):
        c = op if op["op"] == "create" else st["H"].get(op["h"], (None, None))[1]
        if c is None:
            return op["op"]
        fam, key, free = plan["probs"][c["p"]]
        return f"{op['op']} {fam}/{key} {c['path']}/{c['sol']} bc {c['bc']} {op.get('mode', '')}"

    def create(self, st, op):
        fe = self.fe
        if op["p"] >= len(st["plan"]["probs"]):
            return None
        fam, key, free = st["plan"]["probs"][op["p"]]
        st["H"].pop(op["h"], None)
        pr, ts = self.problem(st, op["p"])
        if op.get("own") or (op["p"], op["bc"]) not in st["B"]:
            st["B"][op["p"], op["bc"]] = fs.make_bc(pr, fam, op["bc"])
        bc = st["B"][op["p"], op["bc"]]
        kw = {}
        if op["path"] == "periodic":
            import jax.numpy as jnp
            from feax.flat.pbc import PeriodicPairing, prolongation_matrix
            pair = PeriodicPairing(location_master=lambda p: jnp.isclose(p[1], 0.0, atol=1e-8),
                                   location_slave=lambda p: jnp.isclose(p[1], 1.0, atol=1e-8),
                                   mapping=lambda p: p + np.array([0.0, 1.0]), vec=0)
            kw["P"] = prolongation_matrix([pair], pr.mesh[0], 1)
        if op["path"] == "extra":
            kw["extra_residual_fn"] = lambda s: EXTRA * s ** 3
        if op["path"] != "linear":
            kw["newton_options"] = fe.NewtonOptions(tol=1e-10, rel_tol=1e-13)
        if op["sample"] is not None:
            kw["traced_params"] = fs.traced(pr, fs.params(ref(fam, key), op["sample"]))
        if op.get("adj"):
            kw["adjoint_solver_options"] = self.options(st, op, "adj")
        solver = fe.create_solver(pr, bc, self.options(st, op, "sol"), linear=op["path"] == "linear",
                                  symmetric_elimination=bool(op["sym"]),
                                  traced_structure=ts if op["ts"] else None, **kw)
        st["H"][op["h"]] = [solver, op, bc, {}, None]
        return True

    def options(self, st, op, which):
        """Option objects are reused by the solvers of a run unless the plan says otherwise."""
        k = op[which]
        if op.get("own"):
            return options(self.fe, k)
        if k not in st["O"]:
            st["O"][k] = options(self.fe, k)
        return st["O"][k]

    def solve(self, st, op):
        if op["h"] not in st["H"]:
            return None
        fe, jax = self.fe, self.jax
        jnp = jax.numpy
        solver, c, bc, jits, last = st["H"][op["h"]]
        fam, key, free = st["plan"]["probs"][c["p"]]
        R = ref(fam, key)
        pr, ts = self.problem(st, c["p"])
        tsu = ts if (op["ts"] or free == 1) else None
        p = fs.params(R, op["par"])
        if op.get("fault") and op["fault"][0] == "nan":
            p["vol"][0][0] = np.nan
        if op.get("fault") and op["fault"][0] == "shape":
            p["vol"][0] = p["vol"][0][:-1]
        tp = fs.traced(pr, p)
        scale = 1.0 if op["scale"] is None else op["scale"]
        rows, vals = R.bc(c["bc"], scale)
        bce = None if op["scale"] is None else bc.replace_vals(jnp.asarray(bc.bc_vals) * scale)
        g = None
        if op["guess"] == "zero":
            g = np.zeros(R.n)
        elif op["guess"] == "rand":
            g = np.random.RandomState(7).uniform(-0.5, 0.5, R.n)
            if c["path"] == "periodic":
                P = prolong(R)
                g = P @ (P.T @ g / P.sum(0))
        elif op["guess"] == "prev" and last is not None:
            g = np.array(last)
        if g is not None:
            if c["path"] != "linear" or op["guess"] != "prev":
                g[rows] = vals
            g = jnp.asarray(g)
            if op["guess"] == "prev" and op["c"] and mode_plain(op):
                g = fe.Solution.from_problem(pr, g)
        if g is None and not (c["path"] == "linear" and op["c"]) and (c["path"] == "extra" or c["sol"] in ("cg", "gmres", "bicgstab", "jcg", "kauto", "amg")):
            g = fe.utils.zero_like_initial_guess(pr, bc if bce is None else bce)

        def call(tp_, bc_, ts_):
            return jnp.asarray(solver(tp_, g, bc=bc_, traced_structure=ts_).dofs)
        mode = op["mode"]
        if mode == "eager":
            out = call(tp, bce, tsu)
        elif mode == "jit":
            k = (tsu is None, bce is None, g is None)
            if k not in jits:
                jits[k] = jax.jit(lambda tp_, bc_, ts_, g_: jnp.asarray(
                    solver(tp_, g_, bc=bc_, traced_structure=ts_).dofs))
            out = jits[k](tp, bce, tsu, g)
        elif mode == "vmap":
            out = self.vmapped(op, c, R, pr, bc, bce, p, tp, tsu, g, solver)
        else:
            w = jnp.asarray(weights(R.n, op["c"]))
            bcd = bc if bce is None else bce
            val, gr = jax.value_and_grad(lambda tp_, v_: jnp.dot(w, call(tp_, bcd.replace_vals(v_), tsu)),
                                         argnums=(0, 1))(tp, jnp.asarray(bcd.bc_vals))
            out = (np.asarray(val), [np.asarray(v) for v in gr[0].volume_vars],
                   [[np.asarray(v) for v in s] for s in gr[0].surface_vars], np.asarray(gr[1]))
        out = jax.tree_util.tree_map(np.asarray, out)
        if mode in ("eager", "jit"):
            st["H"][op["h"]][4] = out if np.isfinite(out).all() else None
        return out

    def vmapped(self, op, c, R, pr, bc, bce, p, tp, tsu, g, solver):
        jax, jnp, fe = self.jax, self.jax.numpy, self.fe

        def call(tp_, bc_):
            return jnp.asarray(solver(tp_, g, bc=bc_, traced_structure=tsu).dofs)
        if op["vm"] == "bc":
            b = bc if bce is None else bce
            vs = jnp.stack([b.bc_vals, 0.5 * b.bc_vals])
            if g is not None and c["path"] != "linear":
                rows = np.asarray(b.bc_rows)
                gs = jnp.stack([g.at[rows].set(v) for v in vs])
                return jax.vmap(lambda v, g_: jnp.asarray(
                    solver(tp, g_, bc=b.replace_vals(v), traced_structure=tsu).dofs))(vs, gs)
            return jax.vmap(lambda v: call(tp, b.replace_vals(v)))(vs)
        two = [p, self.lane(p, op["vm"])]
        tps = [fs.traced(pr, q) for q in two]
        st2 = jax.tree_util.tree_map(lambda a, b: jnp.stack([a, b]), *tps)
        return jax.vmap(lambda t: call(t, bce))(st2)

    @staticmethod
    def lane(p, vm):
        q = dict(vol=[np.array(v) for v in p["vol"]], surf=[[np.array(x) for x in s] for s in p["surf"]])
        if vm == "par":
            q["vol"][0] = q["vol"][0] * 1.7
        else:
            q["surf"] = [[x * 0.6 for x in s] for s in q["surf"]]
            q["vol"][1] = q["vol"][1] * 0.4
        return q

    # --------------------------------------------------------------- judge
    def judge(self, st, op, out, fired, n, what):
        c = st["H"][op["h"]][1]
        fam, key, free = st["plan"]["probs"][c["p"]]
        R = ref(fam, key)
        scale = 1.0 if op["scale"] is None else op["scale"]
        flat = np.concatenate([np.ravel(x) for x in self.jax.tree_util.tree_leaves(out)])
        if "shape" in fired:
            return "unspecified"
        if "nan" in fired and not (c["path"] in ("linear", "newton") and c["sol"] in DIRECT or
                                   c["path"] == "newton" and c["sol"] != "amg" and op["mode"] == "eager"):
            return "unspecified"           # a Krylov loop leaves the NaN to the caller
        if "nan" in fired:
            if np.isfinite(flat).all():
                raise Violation("answer-from-bad-parameters", f"op {n} {what}: finite answer for {fired}")
            return "nonfinite"
        if not np.isfinite(flat).all():
            if fired:
                return "nonfinite"
            raise Violation("no-answer", f"op {n} {what}: non-finite answer for a valid system")
        kind = c["path"] if c["path"] in ("periodic", "extra") else "plain"
        tol = TOL["direct"] if (c["sol"] in DIRECT and c["path"] in ("linear", "periodic")) else TOL["krylov"]
        st["checked"] += 1

        def close(got, want, name, t):
            err = np.abs(np.asarray(got) - want).max(initial=0.0) / (1e-3 + np.abs(want).max(initial=0.0))
            if not err < t:
                raise Violation("wrong-" + name, f"op {n} {what}: {name} is off by {err:.3g} relative (limit {t:g})"
                                + (f" after {fired}" if fired else ""))
        if op["mode"] in ("eager", "jit"):
            close(out, reference(fam, key, op["par"], c["bc"], scale, kind)[0], "solution", tol)
        elif op["mode"] == "vmap":
            p = fs.params(R, op["par"])
            want = [reference(fam, key, op["par"], c["bc"], scale, kind)[0]]
            if op["vm"] == "bc":
                want.append(reference(fam, key, op["par"], c["bc"], 0.5 * scale, kind)[0])
            else:
                want.append(self.solve_params(fam, key, self.lane(p, op["vm"]), c["bc"], scale, kind))
            for i in range(2):
                close(out[i], want[i], f"solution-of-lane-{i}", tol)
        else:
            U, lam, gbc = reference(fam, key, op["par"], c["bc"], scale, kind, op["c"])
            close(out[0], np.dot(weights(R.n, op["c"]), U), "objective", 10 * tol)
            if not fs.FAMILIES[fam]["sym"] and (c.get("adj") or c["sol"]) not in DIRECT and c["sym"]:
                return "ok"
            p = fs.params(R, op["par"])
            for i in range(len(p["vol"])):
                rng = np.random.RandomState(11 + i)
                d = rng.uniform(-1, 1, p["vol"][i].shape)
                q = dict(p, vol=[v + (1e-30j * d if j == i else 0) for j, v in enumerate(p["vol"])])
                close(np.dot(out[1][i], d), -np.dot(lam, R.residual(U, q).imag) / 1e-30, f"gradient-volume-{i}", 2e-5)
            pr = self.problem(st, c["p"])[0]
            for s in range(len(p["surf"])):
                for i in range(len(p["surf"][s])):
                    dc = np.array([0.7, -0.4, 0.9])
                    x = np.asarray(pr.physical_surface_quad_points[s])
                    d = fs.surf_eval(dc, x)
                    sf = [[cc + (1e-30j * dc if (a, b) == (s, i) else 0) for b, cc in enumerate(ss)]
                          for a, ss in enumerate(p["surf"])]
                    close(np.sum(out[2][s][i] * d), -np.dot(lam, R.residual(U, dict(p, surf=sf)).imag) / 1e-30,
                          f"gradient-surface-{s}-{i}", 2e-5)
            rows, vals = R.bc(c["bc"], scale)
            if gbc is not None:
                close(out[3], gbc, "gradient-boundary", 2e-5)
        return "ok"

    def solve_params(self, fam, key, p, bck, scale, kind):
        R = ref(fam, key)
        orig = fs.params
        try:
            fs.params = lambda r, s: p
            h = (len(p["vol"]), float(sum(v.sum() for v in p["vol"])),
                 float(sum(np.sum(x) for s in p["surf"] for x in s)))
            return reference(fam, key, ("lane", h), bck, scale, kind)[0]
        finally:
            fs.params = orig

    def assemble(self, st, op, n, res):
        fe = self.fe
        fam, key, free = st["plan"]["probs"][op["p"]]
        pr, ts = self.problem(st, op["p"])
        R = ref(fam, key)
        p = fs.params(R, op["par"])
        u = np.random.RandomState(40 + op["u"]).uniform(-0.5, 0.5, R.n)
        want, J = R.residual(u, p, jac=True)
        sl = pr.unflatten_fn_sol_list(self.jax.numpy.asarray(u))
        tp = fs.traced(pr, p)
        from feax.assembler import get_jacobian, get_res
        tsu = ts if (free == 1 or op["u"] == 2) else None
        got = np.asarray(self.jax.flatten_util.ravel_pytree(get_res(pr, sl, tp, ts=tsu))[0])
        if not np.abs(got - want).max() < 1e-8:
            raise Violation("wrong-residual", f"op {n} {fam}/{key}: residual off by {np.abs(got - want).max():.3g}")
        K = np.asarray(get_jacobian(pr, sl, tp, ts=tsu).todense())
        if free == 2:
            J = np.triu(J)
        if not np.abs(K - J).max() < 1e-8:
            raise Violation("wrong-jacobian", f"op {n} {fam}/{key}: tangent off by {np.abs(K - J).max():.3g}")
        st["checked"] += 1
        res.ev(n, "assemble", "ok")


SCENARIOS = [History()]
