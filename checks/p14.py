"""P14 - buckling solves report eigensolver failure and ignore earlier solves."""
import numpy as np

from checks.p01 import gen_sched
from sim import directsys as ds
from sim import sched
from sim.core import REPO, Scenario, Violation

RULE = ("A plan is a history of buckling solvers being created and called (eager, compiled, differentiated) with changing "
        "matrices, some invalid, and failures injected into the factorization or the eigensolver; or 2-3 threads calling "
        "solvers under a preemption list. Non-trivial: a fault fired, a thread switch happened, or a solver was called with "
        "two different systems.")
STATE_MEASURE = "distinct (backend, mode, kind of system, fault, outcome) tuples and thread switch sequences"
REAL = "feax.solvers.eigen (sparse, dense, matfree backends), jax.pure_callback, SciPy ARPACK and SuperLU, CHOLMOD"
STUB = "thread scheduling in the thread runs; failing backend calls"
ASSUMPTIONS = ["matrices are generic (simple eigenvalues); gradients are compared when the requested factors are separated by 1e-3",
               "the sparse backend asks for the modes+4 eigenvalues of largest magnitude; positive factors outside that set may be missing (infinite)",
               "a partially converged eigensolve may miss modes, but every finite factor must belong to the pencil",
               "the matfree backend guarantees its fundamental mode only; it is checked for that and for equality with a fresh solver"]
CONFIG = dict(quick=dict(wall_s=60, runs=4000, shrink_s=30, plan_s=120),
              thorough=dict(wall_s=1200, runs=10 ** 9, shrink_s=60, plan_s=120))
N = 12
FREE = [list(range(N)), [0, 1, 2, 3, 5, 6, 7, 8, 10, 11], [1, 2, 4, 5, 6, 7, 9, 10, 11], [2, 3, 4, 7, 8, 9, 10],
        [11, 3, 5, 7, 0, 2, 9, 6],
        # of the same sizes as the ones above, with different DoFs
        [0, 1, 3, 4, 5, 6, 8, 9, 10, 11], [0, 2, 3, 5, 6, 7, 8, 10, 11], [0, 1, 5, 6, 8, 9, 11], [1, 2, 4, 5, 7, 8, 10, 11],
        [11, 10, 8, 7, 6, 5, 3, 2, 1, 0], [2, 3, 4, 7, 8, 9, 11]]


def size(sp):
    return sp.get("n", N)


def matrices(sp):
    """(indptr, indices, K data, G indptr, G indices, G data, K dense, G dense)"""
    ip, ix, kd, _, K = ds.make_system(dict(pid=sp["pk"], n=size(sp), vs=sp["ks"], bs=0))
    bad = sp.get("bad")
    f = FREE[sp["free"]]
    K = K.copy()
    if bad == "singular":
        K[f[1], :] = 0.0
        K[:, f[1]] = 0.0
    elif bad == "indefinite":
        K[f[1], f[1]] *= -1.0
    elif bad == "nan":
        K[f[1], f[1]] = np.nan
    M = ds.pattern(sp["pk"], size(sp))
    kd = K[np.nonzero(M)]
    Mg = ds.pattern(sp["pg"], size(sp))
    r = np.random.RandomState(sp["gs"] + 77)
    G = r.uniform(-1, 1, (size(sp), size(sp)))
    G = np.where(Mg, (G + G.T) / 2, 0.0)
    gk = sp.get("g")
    if gk == "posdef":
        G += np.diag(np.abs(G).sum(1) + 0.5)
    elif gk == "negdef":
        G -= np.diag(np.abs(G).sum(1) + 0.5)
    elif gk == "lowrank":
        for i in f[3:]:
            G[i, :] = 0.0
            G[:, i] = 0.0
    elif gk == "zero":
        G[:] = 0.0
    G *= sp.get("scale", 1.0)
    gi = np.concatenate([[0], np.cumsum(Mg.sum(1))]).astype(np.int32)
    return ip, ix, kd, gi, np.nonzero(Mg)[1].astype(np.int32), G[np.nonzero(Mg)], K, G


def reference(sp):
    """(mu descending positive..., vectors normalised to phi K phi = 1), or None if K is not SPD on the free DoFs."""
    *_, K, G = matrices(sp)
    f = FREE[sp["free"]]
    Kf, Gf = K[np.ix_(f, f)], G[np.ix_(f, f)]
    import scipy.linalg as sl
    if sp.get("bad"):
        return None
    ga, V = sl.eigh(Gf, Kf)
    mu = -ga
    o = np.argsort(-mu)
    return mu[o], V[:, o]


class Faults:
    """Seam over scipy's eigs; splu / cholesky come from directsys.BACKEND."""

    def __init__(self):
        self.kind = None
        self.fired = 0
        self.installed = False

    def install(self):
        if self.installed:
            return
        self.installed = True
        import scipy.sparse.linalg as spla
        me, real = self, spla.eigs

        def eigs(A, *a, **k):
            sched.point("eigs.pre", "seam")
            kind = me.kind
            if kind in ("arpack-error", "memory", "noconv-none"):
                me.fired += 1
                if kind == "arpack-error":
                    raise spla.ArpackError(-9999)
                if kind == "memory":
                    raise MemoryError("injected")
                raise spla.ArpackNoConvergence("injected", np.zeros(0, complex), np.zeros((A.shape[0], 0), complex))
            w, v = real(A, *a, **k)
            if kind in ("noconv-half", "noconv-one"):
                me.fired += 1
                o = np.argsort(-np.abs(w))
                o = o[:1] if kind == "noconv-one" else o[:max(1, len(o) // 2)]
                raise spla.ArpackNoConvergence("injected", w[o], v[:, o])
            if kind in ("bad-value", "bad-vector", "bad-nan"):
                me.fired += 1
                o = np.argsort(-w.real)
                w, v = w.copy(), v.copy()
                if kind == "bad-value":
                    w[o[0]] = w[o[0]] * 1.3 + 0.2
                elif kind == "bad-nan":
                    v[:, o[0]] = np.nan
                else:
                    v[:, o[0]] = v[:, o[0]] + np.roll(v[:, o[-1]], 1) * 1.7
                me.pair = (w[o[0]].real, v[:, o[0]].real.copy())
            sched.point("eigs.post", "seam")
            return w, v
        spla.eigs = eigs


FAULTS = Faults()
_ready = []


def setup():
    if _ready:
        return
    _ready.append(1)
    FAULTS.install()
    ds.setup()
    import os
    import feax.solvers.eigen as eg
    sched.install_line_points([os.path.join(os.path.realpath(REPO), "feax", "solvers", "eigen.py")])
    Buckling.eg = eg


def gen_sys(rng, bad_p=0.15):
    sp = dict(pk=rng.choice([0, 1, 2, 3, 4]), pg=rng.choice([0, 1, 2, 3]), ks=rng.randrange(6), gs=rng.randrange(8),
              g=rng.choice([None] * 6 + ["negdef", "negdef", "posdef", "lowrank", "zero"]),
              scale=rng.choice([1.0, 1.0, 0.1, 5.0]))
    if rng.random() < bad_p:
        sp["bad"] = rng.choice(["singular", "indefinite", "nan"])
    return sp


class Buckling(Scenario):
    prop, name = "P14", "history"
    shrink_lists = ("ops", "pool")
    weight = 3.0
    eg = None

    def setup(self):
        setup()

    def gen(self, rng):
        pool = [gen_sys(rng) for _ in range(rng.choice([2, 3, 4]))]
        if rng.random() < 0.6:                               # same patterns: the same compiled call serves several systems
            for sp in pool[1:]:
                sp["pk"], sp["pg"] = pool[0]["pk"], pool[0]["pg"]
        elif rng.random() < 0.7:                             # patterns of equal size
            for sp in pool:
                sp["pk"], sp["pg"] = rng.choice([0, 1, 2]), rng.choice([0, 1, 2])
        solvers = [dict(be=rng.choice(["sparse"] * 6 + ["dense"] * 3 + ["matfree"] * (1 if rng.random() < 0.2 else 0)),
                        m=rng.choice([1, 2, 3, 3, 4, 6]), free=rng.randrange(len(FREE)),
                        nmv=rng.choice([None, None, 20, 40]), tol=rng.choice([0, 0, 0, 0, 1]))
                   for _ in range(rng.choice([1, 2, 2, 3]))]
        ops = []
        for _ in range(rng.choice([3, 5, 8])):
            op = dict(s=rng.randrange(len(solvers)), sys=rng.randrange(len(pool)),
                      mode=rng.choice(["eager", "eager", "jit", "jit", "grad", "jitgrad"]), w=rng.randrange(5))
            if rng.random() < 0.3:
                op["fault"] = rng.choice(["arpack-error", "memory", "noconv-none", "noconv-half", "noconv-one", "bad-value",
                                          "bad-vector", "bad-nan", "be0", "be1", "be2", "be3"])
            b = rng.choice([None, None, None, "share", "inplace"])
            if b:
                op["buf"] = b
            ops.append(op)
        if rng.random() < 0.25:
            for sp in pool:
                sp["n"] = rng.choice([N, 15])
        if rng.random() < 0.5 and len(solvers) > 1:           # equally many free DoFs, but others
            f = solvers[0]["free"]
            same = [i for i in range(len(FREE)) if len(FREE[i]) == len(FREE[f])]
            for sv in solvers[1:]:
                sv["free"] = rng.choice(same)
        return dict(pool=pool, solvers=solvers, ops=ops)

    # ----------------------------------------------------------- execution
    def make(self, sv):
        kw = {}
        if sv["be"] != "dense":
            if sv["nmv"]:
                kw["num_matvecs"] = sv["nmv"]
            if sv["tol"]:
                kw["conv_tol"] = None
        return self.eg.create_linear_buckling_solver(np.array(FREE[sv["free"]]), num_modes=sv["m"], solver=sv["be"], **kw)

    def args(self, sp, buf=None, store=None):
        import jax.numpy as jnp
        from feax.csr import CSRMatrix
        ip, ix, kd, gi, gx, gd, _, _ = matrices(sp)
        n = size(sp)
        leaves = [kd, ip, ix, gd, gi, gx]
        if buf == "inplace":                                  # the caller's NumPy buffers, overwritten for every system
            for i, v in enumerate(leaves):
                b = store.setdefault(("np", i, v.shape), v.copy())
                b[:] = v
                leaves[i] = b
        elif buf == "share":                                  # one pattern object for all systems having that pattern
            for i, v in enumerate(leaves):
                leaves[i] = jnp.asarray(v) if i in (0, 3) else store.setdefault(("jx", i, v.tobytes()), jnp.asarray(v))
        else:
            leaves = [jnp.asarray(v) for v in leaves]
        return (CSRMatrix(*leaves[:3], (n, n)), CSRMatrix(*leaves[3:], (n, n)))

    def call(self, bf, cache, op, sv, sp):
        """-> (lam, modes, dK, dG)"""
        import jax
        import jax.numpy as jnp
        from feax.csr import CSRMatrix
        K, G = self.args(sp, op.get("buf"), cache)
        if op["mode"] == "eager":
            lam, modes = bf(K, G)
            return np.asarray(lam), np.asarray(modes), None, None
        if op["mode"] == "jit":
            if "jit" not in cache:
                cache["jit"] = jax.jit(bf)
            lam, modes = cache["jit"](K, G)
            return np.asarray(lam), np.asarray(modes), None, None

        def loss(kd, gd, K, G, w):
            lam, modes = bf(CSRMatrix(kd, K.indptr, K.indices, K.shape), CSRMatrix(gd, G.indptr, G.indices, G.shape))
            return jnp.sum(jnp.where(w != 0.0, w * lam, 0.0)), (lam, modes)
        if "g" not in cache:
            cache["g"] = jax.value_and_grad(loss, argnums=(0, 1), has_aux=True)
            cache["gj"] = jax.jit(cache["g"])
        f = cache["g" if op["mode"] == "grad" else "gj"]
        (_, (lam, modes)), (dk, dg) = f(K.data, G.data, K, G, jnp.asarray(self.weights(op, sv, sp)))
        return np.asarray(lam), np.asarray(modes), np.asarray(dk), np.asarray(dg)

    @staticmethod
    def residual(sp, mu, x):
        """Residual of a Ritz pair of T = -inv(K) Kg, the documented convergence measure."""
        *_, K, G = matrices(sp)
        f = FREE[sp["free"]]
        try:
            return np.linalg.norm(-np.linalg.solve(K[np.ix_(f, f)], G[np.ix_(f, f)] @ x) - mu * x) / np.linalg.norm(x)
        except np.linalg.LinAlgError:
            return np.inf

    def weights(self, op, sv, sp):
        """Only modes that exist and are found for certain carry weight."""
        m = sv["m"]
        r = np.random.RandomState(op["w"])
        w = r.uniform(0.5, 1.5, m)
        return np.where(np.arange(m) < self.certain(sv, sp), w, 0.0)

    @staticmethod
    def certain(sv, sp):
        """How many modes any working backend must find."""
        ref = reference(sp)
        if ref is None:
            return 0
        mu = ref[0]
        top = np.abs(mu).max() if len(mu) else 0.0
        pos = mu[mu > 1e-7 * max(top, 1e-300)]
        if sv["be"] == "dense":
            return min(sv["m"], len(pos))
        k = min(sv["m"] + 4, len(mu) - 2)
        big = np.sort(np.abs(mu))[::-1][:k]
        if k < len(mu) and len(big):                          # ties at the cut
            pos = pos[pos > np.sort(np.abs(mu))[::-1][k] * (1 + 1e-6)]
        return min(sv["m"], len(pos))

    def judge(self, what, sv, sp, fault, out, exc):
        ref = reference(sp)
        m = sv["m"]
        f = FREE[sp["free"]]
        *_, K, G = matrices(sp)
        if exc is not None:
            if fault or ref is None:
                return "reported"
            mu = ref[0]
            if sv["be"] == "sparse" and sv["tol"] == 0 and not (mu[:1] > 1e-7 * np.abs(mu).max()).any():
                return "no-mode"
            if sv["be"] != "dense" and not np.any(G):
                return "no-mode"                              # ARPACK refuses the zero operator
            if sv["be"] == "matfree":
                return "matfree-refused"
            raise Violation("solve-raised", f"{what}: raised {type(exc).__name__}: {str(exc)[-300:]}")
        lam, modes, dk, dg = out
        if lam.shape != (m,) or modes.shape != (m, size(sp)):
            raise Violation("wrong-shape", f"{what}: {lam.shape} {modes.shape}")
        fin = np.isfinite(lam)
        if np.isnan(lam).any() or (lam <= 0).any():
            raise Violation("invalid-factor", f"{what}: factors {lam}")
        if (np.diff(np.where(fin, lam, 1e300)) < 0).any():
            raise Violation("not-ascending", f"{what}: factors {lam}")
        if not fin.all() and np.abs(modes[~fin]).max() != 0.0:
            raise Violation("invalid-mode", f"{what}: a missing mode has a shape")
        if not np.isfinite(modes).all():
            raise Violation("invalid-mode", f"{what}: non-finite mode shapes")
        con = np.setdiff1d(np.arange(size(sp)), f)
        if len(con) and np.abs(modes[:, con]).max() != 0.0:
            raise Violation("invalid-mode", f"{what}: mode shapes move constrained DoFs")
        if ref is None:                                       # invalid system: only genuine eigenpairs may come back
            if not np.isfinite(K[np.ix_(f, f)]).all():
                if fin.any():
                    raise Violation("invented-factor", f"{what}: non-finite stiffness gave factors {lam}")
                return "empty"
            if not fin.any() and sv["be"] == "dense":
                raise Violation("failure-hidden", f"{what}: K is {sp['bad']} on the free DoFs, reported as 'no buckling'")
        scale = max(np.abs(1.0 / lam[fin]).max(), 1e-300) if fin.any() else 1.0
        if ref is not None and len(ref[0]):
            scale = max(np.abs(ref[0]).max(), 1e-300)
        loose = sv["be"] == "matfree"
        for i in np.nonzero(fin)[0]:
            if loose and i > 0:
                break
            x = modes[i, f]
            if ref is not None and 1.0 / lam[i] < 1e-9 * scale:
                continue                                      # numerically infinite
            Kx, Gx = K[np.ix_(f, f)] @ x, G[np.ix_(f, f)] @ x
            if ref is None or loose:
                # held to the documented tolerance on ||T x - mu x|| / ||x||, fundamental mode only
                d = np.linalg.norm(Kx / lam[i] + Gx)
                lim = (0.02 * np.linalg.norm(K[np.ix_(f, f)]) + 1e-6 * np.linalg.norm(G)) * np.linalg.norm(x)
                if i == 0 and sv["be"] != "dense" and sv["tol"] == 0 and d > lim:
                    raise Violation("not-an-eigenpair", f"{what}: factor 0 = {lam[0]!r} leaves a residual of {d:.2e}, limit {lim:.2e}")
                continue
            e = abs(abs(x @ Kx) - 1.0)
            if e > 1e-6:
                raise Violation("not-normalised", f"{what}: mode {i} has phi K phi = {x @ Kx!r}")
            r = np.linalg.norm(Kx / lam[i] + Gx) / (scale * np.linalg.norm(Kx))
            if r > 1e-6:
                raise Violation("not-an-eigenpair", f"{what}: factor {i} = {lam[i]!r} leaves a relative residual of {r:.2e}")
        if ref is not None and not loose:
            mu = ref[0]
            got = np.where(fin, 1.0 / np.where(fin, lam, 1.0), 0.0)
            if fault:
                for g in got:
                    if np.abs(np.append(mu, 0.0) - g).min() > 1e-6 * scale:
                        raise Violation("invented-factor", f"{what}: 1/factor {g!r} is no eigenvalue")
                return "partial"
            want = np.zeros(m)
            p = mu[mu > 0][:m]
            want[:len(p)] = p
            c = self.certain(sv, sp)
            bad = np.abs(got - want) > 1e-6 * scale
            bad[c:] &= got[c:] != 0.0                          # beyond that a factor is right or infinite
            if bad.any():
                raise Violation("wrong-factor", f"{what}: factors {lam}, reference {1 / np.where(want > 0, want, np.nan)}")
        if dk is not None and ref is not None and not fault and not loose:
            self.judge_grad(what, sv, sp, lam, dk, dg)
        return "ok"

    def judge_grad(self, what, sv, sp, lam, dk, dg):
        mu, V = reference(sp)
        f, m = np.array(FREE[sp["free"]]), sv["m"]
        w = self.weights(self.cur, sv, sp)
        if not (np.isfinite(dk).all() and np.isfinite(dg).all()):
            raise Violation("gradient-not-finite", f"{what}: gradient of the existing factors {lam} is not finite")
        pos = np.nonzero(mu > 0)[0]
        gap = np.abs(mu[:, None] - mu[None, :]) + 10.0 * np.eye(len(mu)) * np.abs(mu).max()
        n = size(sp)
        cK, cG = np.zeros((n, n)), np.zeros((n, n))
        for i in range(m):
            if w[i] == 0.0:
                continue
            j = pos[i]
            if gap[j].min() < 1e-3 * np.abs(mu).max():
                return
            x = np.zeros(n)
            x[f] = V[:, j]
            cK += w[i] / mu[j] * np.outer(x, x)
            cG += w[i] / mu[j] ** 2 * np.outer(x, x)
        for d, c, M, nm in ((dk, cK, ds.pattern(sp["pk"], size(sp)), "K"), (dg, cG, ds.pattern(sp["pg"], size(sp)), "Kg")):
            e = np.abs(d - c[np.nonzero(M)]).max()
            if e > 1e-5 * (1e-12 + np.abs(c).max()):
                raise Violation("wrong-gradient", f"{what}: sensitivity w.r.t. {nm} is off by {e:.2e} (scale {np.abs(c).max():.2e})")

    def execute(self, plan, res):
        bfs = [self.make(sv) for sv in plan["solvers"]]
        caches = [{} for _ in bfs]
        used = {}
        for n, op in enumerate(plan["ops"]):
            if not plan["pool"]:
                return
            sv = plan["solvers"][op["s"]]
            sp = dict(plan["pool"][op["sys"] % len(plan["pool"])], free=sv["free"])
            what = f"op {n} ({sv['be']}, {op['mode']}, system {op['sys']}{' ' + sp['bad'] if sp.get('bad') else ''})"
            fault = op.get("fault")
            if fault and sv["be"] == "dense":
                fault = None
            self.cur = op
            FAULTS.kind, FAULTS.fired = None, 0
            ds.BACKEND.arm({}, None)
            if fault:
                if fault.startswith("be"):
                    ds.BACKEND.arm({int(fault[2:]): "before"}, None)
                else:
                    FAULTS.kind = fault
            out = exc = None
            try:
                out = self.call(bfs[op["s"]], caches[op["s"]], op, sv, sp)
            except Exception as e:
                exc = e
            fired = FAULTS.fired + len(ds.BACKEND.fired)
            FAULTS.kind = None
            ds.BACKEND.disarm()
            if fired:
                res.faults["be" if fault.startswith("be") else fault] += 1
                if sv["be"] == "sparse" and fault in ("memory", "arpack-error", "noconv-none") and exc is None:
                    raise Violation("failure-hidden", f"{what}: the eigensolver failed ({fault}) but factors {out[0]} came back")
                if fault in ("bad-value", "bad-vector", "bad-nan"):
                    # an unconverged fundamental pair must be reported while the check is on
                    r = self.residual(sp, *FAULTS.pair)
                    if sv["tol"] == 0 and exc is None and not sp.get("bad") and FAULTS.pair[0] > 1e-6 and not r < 1.05e-2:
                        raise Violation("failure-hidden", f"{what}: unconverged fundamental mode ({fault}, residual {r:.1e}) "
                                        f"passed off as {out[0]}")
                    verdict = "corrupted"
                    res.probes[f"{sv['be']}:{op['mode']}:{verdict}"] += 1
                    continue
            verdict = self.judge(what, sv, sp, fault if fired and not (fault or "").startswith("be") else
                                 (fault if fired and exc is not None else None), out, exc)
            if sv["be"] == "matfree" and out is not None and op["mode"] == "eager":
                fresh = self.call(self.make(sv), {}, op, sv, sp)
                if not np.allclose(fresh[0], out[0], rtol=1e-7, atol=0):
                    raise Violation("depends-on-history", f"{what}: {out[0]}, a fresh solver gives {fresh[0]}")
            res.steps += 1
            res.sim_time += 1
            res.probes[f"{sv['be']}:{op['mode']}:{verdict}"] += 1
            res.states.add(repr((sv["be"], op["mode"], sp.get("bad"), sp.get("g"), fault if fired else None, verdict)))
            used.setdefault(op["s"], set()).add(op["sys"])
            res.ev(n, verdict, "" if out is None else [f"{v:.6e}" if v < 1e9 * out[0][0] else "inf" for v in out[0]], "" if exc is None else type(exc).__name__)
            if fired or len(used[op["s"]]) > 1:
                res.nontrivial = True


class Threads(Buckling):
    name = "threads"
    weight = 1.0
    shrink_lists = ("tasks", "ops", "sched", "pool")

    def gen(self, rng):
        pool = [gen_sys(rng, 0.1) for _ in range(rng.choice([2, 3]))]
        if rng.random() < 0.5:
            for sp in pool:
                sp["pk"], sp["pg"] = rng.choice([0, 1, 2]), rng.choice([0, 1, 2])
        solvers = [dict(be="sparse", m=rng.choice([1, 2, 3]), free=rng.randrange(len(FREE)), nmv=None, tol=0)
                   for _ in range(rng.choice([1, 1, 2]))]
        tasks = [dict(ops=[dict(s=rng.randrange(len(solvers)), sys=rng.randrange(len(pool)), mode="eager", w=0)
                           for _ in range(rng.choice([1, 2]))]) for _ in range(rng.choice([2, 2, 3]))]
        total = sum(len(t["ops"]) for t in tasks)
        return dict(pool=pool, solvers=solvers, tasks=tasks, sched=gen_sched(rng, 60 * total, 8 * total, len(tasks)))

    def execute(self, plan, res):
        if not plan["tasks"] or not plan["pool"]:
            return
        bfs = [self.make(sv) for sv in plan["solvers"]]
        sim = sched.Sim(plan["sched"])
        sim.host_only = True
        got = {}
        FAULTS.kind = None
        ds.BACKEND.arm({}, None)

        def mk(ti, ops):
            def body():
                for oi, op in enumerate(ops):
                    sv = plan["solvers"][op["s"]]
                    sp = dict(plan["pool"][op["sys"] % len(plan["pool"])], free=sv["free"])
                    try:
                        got[ti, oi] = (self.call(bfs[op["s"]], {}, op, sv, sp), None)
                    except Violation:
                        raise
                    except Exception as e:
                        got[ti, oi] = (None, e)
            return body
        for ti, t in enumerate(plan["tasks"]):
            sim.spawn(f"t{ti}", mk(ti, t["ops"]))
        sim.run()
        res.steps += sim.points
        res.sim_time += sim.points
        res.nontrivial = sim.switches > 0
        res.probes["switches"] += sim.switches
        if sim.trace:
            res.states.add(hash(tuple(sim.trace)) & 0xffffffffffff)
        for s in sim.trace:
            res.ev(*s)
        for ti, t in enumerate(plan["tasks"]):
            for oi, op in enumerate(t["ops"]):
                if (ti, oi) not in got:
                    raise Violation("lost-solve", f"thread {ti} solve {oi} never returned")
                sv = plan["solvers"][op["s"]]
                sp = dict(plan["pool"][op["sys"] % len(plan["pool"])], free=sv["free"])
                self.cur = op
                v = self.judge(f"thread {ti} solve {oi}", sv, sp, None, *got[ti, oi])
                res.probes[f"thread:{v}"] += 1
                res.ev(ti, oi, v)


SCENARIOS = [Buckling(), Threads()]
