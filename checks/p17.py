"""P17 - homogenization, filters and responses answer for the arguments of the call."""
import gc
import os
import warnings

import numpy as np

from checks import femsys as fs
from sim import directsys as ds
from sim.core import Scenario, Violation

RULE = ("A plan is a history over several cells and meshes (some with equal node and cell counts) of homogenization solvers, Helmholtz "
        "and density filters, compliance and volume functions being created, called (eager, compiled, differentiated, batched) with "
        "changing designs held in fresh or reused arrays, and dropped, with failing backend calls, failing user code, NaN and wrongly "
        "shaped designs in between. Non-trivial: two functions were used, or a fault fired.")
STATE_MEASURE = "distinct (kind of function, mesh, options, mode, fault, number of live functions) tuples"
TIME_UNIT = "calls"
REAL = "feax.flat.solver, feax.gene.filters, feax.gene.responses, feax.solvers (reduced, linear), assembler, JAX, CHOLMOD, SuperLU, UMFPACK"
STUB = "failing backend boundary (injected)"
ASSUMPTIONS = ["homogenization solvers are not batched: a batched Krylov loop on the singular periodic system is documented to be unsafe",
               "displacements of a homogenization are compared up to a translation",
               "a call given NaN or a wrong shape may do anything; only later calls are judged"]
CONFIG = dict(quick=dict(wall_s=90, runs=4000, shrink_s=40, plan_s=300),
              thorough=dict(wall_s=1500, runs=10 ** 9, shrink_s=120, plan_s=300))
H = 1e-30
SIZE = dict(e=(2.0, 0.7), f=(0.8, 1.6))                       # the others are unit squares


def mesh_arrays(key):
    if key == "g":                                            # more nodes than one block of the weight computation
        x, y = np.meshgrid(np.linspace(0, 1, 27), np.linspace(0, 1, 21), indexing="ij")
        i = np.arange(27 * 21).reshape(27, 21)
        c = np.stack([i[:-1, :-1], i[1:, :-1], i[1:, 1:], i[:-1, 1:]], -1).reshape(-1, 4)
        return np.stack([x.ravel() + 0.004 * np.sin(7 * x.ravel() + 40 * y.ravel()), y.ravel()], 1), c.astype(np.int32)
    if key in SIZE:
        p, c = fs.mesh_arrays(dict(e="b", f="c")[key])
        return p * np.array(SIZE[key]), c
    return fs.mesh_arrays(key)


# ------------------------------------------------------------- references
class Geo:
    def __init__(self, key):
        self.pts, self.cells = mesh_arrays(key)
        self.L = SIZE.get(key, (1.0, 1.0))
        self.N, self.C = len(self.pts), len(self.cells)
        X = self.pts[self.cells]
        self.phi = np.array([fs._shape(q) for q in fs._QP])
        d = np.array([fs._dshape(q) for q in fs._QP])
        J = np.einsum("qai,cak->cqik", d, X)
        self.w = np.linalg.det(J)
        self.d = np.einsum("cqki,qai->cqak", np.linalg.inv(J), d)
        self.x = np.einsum("qa,cak->cqk", self.phi, X)
        self.edges = []
        for k in (0, 1):                                      # right, top
            self.edges.append(np.array([(n[a], n[(a + 1) % 4]) for n in self.cells for a in range(4)
                                        if abs(self.pts[n[a]][k] - self.L[k]) < 1e-9 and abs(self.pts[n[(a + 1) % 4]][k] - self.L[k]) < 1e-9]))

    def quad(self, v):
        v = np.asarray(v)
        if v.shape == (self.C, 4):
            return v
        if v.shape == (self.C,):
            return np.repeat(v[:, None], 4, 1)
        return np.einsum("qa,ca->cq", self.phi, v[self.cells])

    def classes(self, per):
        """Node -> periodic representative; per: subset of 'xy'."""
        rep = []
        for p in self.pts:
            q = p.copy()
            for k, c in enumerate("xy"):
                if c in per and abs(q[k] - self.L[k]) < 1e-9:
                    q[k] = 0.0
            rep.append(int(np.argmin(((self.pts - q) ** 2).sum(1))))
        u = sorted(set(rep))
        P = np.zeros((self.N, len(u)))
        for i, r in enumerate(rep):
            P[i, u.index(r)] = 1.0
        return P


_GEO = {}


def geo(key):
    if key not in _GEO:
        _GEO[key] = Geo(key)
    return _GEO[key]


STRAINS = [np.array([[1., 0], [0, 0]]), np.array([[0., 0], [0, 1]]), np.array([[0., .5], [.5, 0]])]
NU = 0.3


def stress(g, E):
    e = (g + np.swapaxes(g, -1, -2)) / 2
    la, mu = E * NU / ((1 + NU) * (1 - 2 * NU)), E / (2 * (1 + NU))
    return 2 * mu[..., None, None] * e + (la * (e[..., 0, 0] + e[..., 1, 1]))[..., None, None] * np.eye(2)


def hom_ref(key, E):
    """C (3,3), total displacements (3, 2N) with zero nodal mean of the fluctuation."""
    G = geo(key)
    Eq = G.quad(E)
    n = 2 * G.N
    K = np.zeros((n, n), Eq.dtype)
    for a in range(4):
        for v in range(2):
            g = np.zeros((G.C, 4, 2, 2))
            g[:, :, v, :] = G.d[:, :, a, :]
            s = stress(g, Eq)
            col = np.einsum("cqvk,cqbk,cq->cbv", s, G.d, G.w)
            np.add.at(K, ((2 * G.cells[:, :, None] + np.arange(2)), (2 * G.cells[:, a] + v)[:, None, None]), col)
    P = np.kron(G.classes("xy"), np.eye(2))
    A = P.T @ K @ P
    C, us = np.zeros((3, 3), Eq.dtype), []
    for k, e in enumerate(STRAINS):
        um = (G.pts @ e.T).reshape(-1)
        r = -P.T @ (K @ um)
        y = np.zeros(A.shape[0], Eq.dtype)
        y[2:] = np.linalg.solve(A[2:, 2:], r[2:])             # the translation is pinned
        f = (P @ y).reshape(-1, 2)
        u = um + (f - f.mean(0)).reshape(-1)
        g = np.einsum("cqak,cav->cqvk", G.d, u.reshape(-1, 2)[G.cells])
        s = np.einsum("cqvk,cq->vk", stress(g, Eq), G.w) / G.w.sum()
        C[:, k] = [s[0, 0], s[1, 1], s[0, 1]]
        us.append(u)
    return C, np.array(us)


def helm_ref(key, radius, per, rho):
    G = geo(key)
    A, M = np.zeros((G.N, G.N)), np.zeros((G.N, G.N))
    for a in range(4):
        for b in range(4):
            np.add.at(M, (G.cells[:, a], G.cells[:, b]), np.einsum("q,q,cq->c", G.phi[:, a], G.phi[:, b], G.w))
            np.add.at(A, (G.cells[:, a], G.cells[:, b]), np.einsum("cqk,cqk,cq->c", G.d[:, :, a], G.d[:, :, b], G.w))
    P = G.classes(per) if per else np.eye(G.N)
    return P @ np.linalg.solve(P.T @ (radius ** 2 * A + M) @ P, P.T @ (M @ rho))


def dens_ref(key, radius, weight, rho):
    G = geo(key)
    d = np.sqrt(((G.pts[:, None] - G.pts[None]) ** 2).sum(2))
    W = dict(cone=np.maximum(0, radius - d), gaussian=np.exp(-(d / radius) ** 2), constant=np.ones_like(d))[weight]
    W = np.where(d <= radius, W, 0.0)
    return (W @ rho) / W.sum(1)


def traction_ref(s, u, x, p):
    """Minus the surface map of the problem."""
    if s == 0:
        return np.stack([p * (1 + x[..., 1]), 0.3 * p * u[..., 0]], -1)
    return np.stack([0.2 * p + 0 * u[..., 0], -p * (0.5 + x[..., 0])], -1)


def comp_ref(key, sol, load):
    """load(s, x) -> parameter at the points x of side s."""
    G = geo(key)
    U, tot = np.asarray(sol).reshape(-1, 2), 0.0
    for s, e in enumerate(G.edges):
        A, B = G.pts[e[:, 0]], G.pts[e[:, 1]]
        L = np.sqrt(((A - B) ** 2).sum(1))
        for xi in (-fs.G, fs.G):
            a, b = (1 - xi) / 2, (1 + xi) / 2
            x, u = a * A + b * B, a * U[e[:, 0]] + b * U[e[:, 1]]
            tot = tot + ((traction_ref(s, u, x, load(s, x)) * u).sum(1) * L / 2).sum()
    return tot


def vol_ref(key, rho):
    G = geo(key)
    return (G.quad(rho) * G.w).sum() / G.w.sum()


# --------------------------------------------------------------- the world
class Abort(Exception):
    pass


CLS, HOOK = {}, dict(left=0)


def user_code():
    if HOOK["left"] > 0:
        HOOK["left"] -= 1
        if HOOK["left"] == 0:
            raise Abort("user code failed")


def classes():
    if CLS:
        return CLS
    import feax as fe
    import jax.numpy as jnp

    class Bulk(fe.Problem):
        def get_tensor_map(self):
            def s(g, E):
                user_code()
                e = 0.5 * (g + g.T)
                return 2 * E / (2 * (1 + NU)) * e + E * NU / ((1 + NU) * (1 - 2 * NU)) * jnp.trace(e) * jnp.eye(2)
            return s

    class Elastic(Bulk):
        def get_surface_maps(self):
            def right(u, x, p):
                user_code()
                return -jnp.stack([p * (1 + x[1]), 0.3 * p * u[0]])

            def top(u, x, p):
                return -jnp.stack([0.2 * p, -p * (0.5 + x[0])])
            return [right, top]
    CLS.update(e=Elastic, h=Bulk)
    return CLS


def options(fe, k):
    if k is None:
        return None
    if k in ("spsolve", "cholmod", "umfpack"):
        return fe.DirectSolverOptions(solver=k)
    if k == "direct":
        return fe.DirectSolverOptions()
    return fe.KrylovSolverOptions(solver=k, tol=1e-12, atol=1e-13)


RADII = [0.31, 0.45, 0.12, 0.83]
KINDS = ["hom", "hom", "helm", "helm", "helm", "dens", "dens", "comp", "dyn", "vol"]


class Functions(Scenario):
    prop, name = "P17", "functions"
    shrink_lists = ("ops",)

    def setup(self):
        ds.setup()
        ds.BACKEND.install()
        import jax
        jax.config.update("jax_enable_x64", True)
        import feax as fe
        jax.config.update("jax_compilation_cache_dir", os.path.join(os.environ.get("SIM_SCRATCH") or "/tmp", "jaxcache"))
        jax.config.update("jax_persistent_cache_min_compile_time_secs", 0.0)
        jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
        self.fe, self.jax = fe, jax

    # ---------------------------------------------------------- generator
    def make(self, rng, kind):
        op = dict(op="make", k=kind, mesh=rng.choice("abbccdef"))
        if kind == "hom":
            op.update(opt=rng.choice(["cg", "cg", None, "direct"]))
        elif kind == "helm":
            op.update(r=rng.randrange(len(RADII)), per=rng.choice(["", "", "x", "xy", "y"]),
                      opt=rng.choice([None, "cg", "spsolve", "cholmod", "umfpack", "bicgstab"]))
            if op["per"]:
                op["opt"] = rng.choice([None, "cg", "spsolve", "cholmod"])
        elif kind == "dens":
            op.update(r=rng.randrange(len(RADII)), wt=rng.choice(["cone", "cone", "gaussian", "constant"]), one=rng.randrange(2))
            if rng.random() < 0.15:
                op["mesh"] = "g"
        elif kind == "comp":
            op.update(load=rng.choice([None, 2.0, [1.5, -0.5], [0.3, 2.0]]))
        return op

    def gen(self, rng):
        ops, live = [], []
        focus = rng.choice(KINDS) if rng.random() < 0.6 else None
        for _ in range(rng.choice([5, 8, 12])):
            if not live or rng.random() < 0.35:
                op = self.make(rng, focus if focus and rng.random() < 0.8 else rng.choice(KINDS))
                if live and rng.random() < 0.5 and live[-1]["k"] == op["k"]:      # a sibling that differs in one thing
                    f = rng.choice([q for q in op if q not in ("op", "k")])
                    op = dict(live[-1], **{f: op[f]})
                    if op.get("per") and op.get("opt") in ("umfpack", "bicgstab"):
                        op["opt"] = "cg"
                if rng.random() < 0.1:
                    op["fault"] = ["abort", rng.choice([1, 2, 3])]
                live.append({q: v for q, v in op.items() if q != "fault"})
                ops.append(op)
                continue
            if len(live) > 1 and rng.random() < 0.1:
                ops.append(dict(op="drop", h=rng.randrange(8)))
                continue
            h = rng.randrange(len(live)) if rng.random() < 0.6 else len(live) - 1
            m = ["eager", "eager", "jit", "jit", "grad", "jitgrad"] + (["vmap"] if live[h]["k"] != "hom" else [])
            last = [o["s"] for o in ops if o["op"] == "call" and o["h"] == h][-1:]
            op = dict(op="call", h=h, s=(last[0] + 5) % 10 if last and rng.random() < 0.3 else rng.randrange(5), mode=rng.choice(m), at=rng.choice(["node", "cell", "cell", "quad"]),
                      buf=rng.choice([0, 0, 1]))
            x = rng.random()
            if x < 0.08:
                op["fault"] = [rng.choice(["nan", "shape"])]
            elif x < 0.16:
                op["fault"] = ["abort", rng.choice([1, 2])]
            elif x < 0.28 and live[h].get("opt") in ("spsolve", "cholmod", "umfpack"):
                op["fault"] = ["call", rng.randrange(3)]
            ops.append(op)
        return dict(ops=ops)

    def normalise(self, p):
        return p if p["ops"] and p["ops"][0]["op"] == "make" else None

    def directed(self):
        mk = lambda k, mesh, **q: dict(op="make", k=k, mesh=mesh, **q)  # noqa
        call = lambda h, s, mode, at="cell", **q: dict(op="call", h=h, s=s, mode=mode, at=at, buf=0, **q)  # noqa
        for k, kw in (("hom", dict(opt="cg")), ("helm", dict(r=0, per="", opt=None)), ("helm", dict(r=1, per="xy", opt="cg")),
                      ("helm", dict(r=0, per="", opt="cholmod")), ("helm", dict(r=0, per="x", opt="spsolve")),
                      ("dens", dict(r=0, wt="cone", one=0)), ("dens", dict(r=1, wt="gaussian", one=1)), ("comp", dict(load=None)),
                      ("comp", dict(load=[1.5, -0.5])), ("dyn", {}), ("vol", {})):
            for m1, m2 in (("b", "c"), ("a", "b"), ("b", "e")):
                ops = [mk(k, m1, **kw), call(0, 0, "eager"), mk(k, m2, **kw), call(1, 1, "eager"), call(0, 2, "jit", "node"),
                       call(1, 3, "jitgrad"), call(0, 3, "grad"), call(1, 0, "jit"), call(1, 4, "eager", "node"), call(1, 9, "eager", "node")]
                yield dict(ops=ops)
            alt = [dict(kw, **d) for d in (dict(r=1 - kw.get("r", 0)), dict(per="y"), dict(opt="cg"), dict(wt="constant"),
                                           dict(load=[0.3, 2.0])) if set(d) <= set(kw)]
            ops = [mk(k, "b", **kw), call(0, 0, "jit")]
            for i, a in enumerate(alt):
                ops += [mk(k, "b", **a), call(i + 1, 0, "jit"), call(i + 1, 1, "grad"), call(0, 1, "jit")]
            yield dict(ops=ops + [mk(k, "b", **kw), call(len(alt) + 1, 2, "eager")])

        for wt in ("cone", "gaussian", "constant"):
            yield dict(ops=[mk("dens", "g", r=2, wt=wt, one=0), call(0, 0, "eager", "node"), call(0, 1, "jit", "node")])

    # ---------------------------------------------------------- execution
    def world(self, key):
        fe = self.fe
        pts, cells = mesh_arrays(key)
        lx, ly = SIZE.get(key, (1.0, 1.0))
        mesh = fe.Mesh(pts, cells, ele_type="QUAD4")
        import jax.numpy as jnp
        R = lambda p: jnp.isclose(p[0], lx, atol=1e-8)  # noqa
        T = lambda p: jnp.isclose(p[1], ly, atol=1e-8)  # noqa
        return mesh, lambda sides=True: classes()["e" if sides else "h"](mesh, vec=2, dim=2, ele_type="QUAD4", location_fns=[R, T] if sides else [])

    def build(self, op, worlds):
        """-> function of one design array, written so that the result is an array"""
        fe = self.fe
        import jax.numpy as jnp
        from jax.experimental import sparse as js
        from feax.gene import filters, responses
        from feax.flat import solver as hs
        key = op["mesh"]
        if key not in worlds:
            worlds[key] = self.world(key)
        mesh, prob = worlds[key]
        k = op["k"]
        if k == "hom":
            P = js.BCOO.fromdense(jnp.asarray(np.kron(geo(key).classes("xy"), np.eye(2))))
            p = prob(False)
            bc = fe.DirichletBCConfig([]).create_bc(p)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                s = hs.create_homogenization_solver(p, bc, P, mesh, solver_options=options(fe, op["opt"]), dim=2)
            return lambda E: (lambda r: jnp.concatenate([r.C_hom.ravel(), r.u_totals.ravel(), r.u_macros.ravel()]))(s(fe.TracedParams(volume_vars=(E,))))
        if k == "helm":
            P = js.BCOO.fromdense(jnp.asarray(geo(key).classes(op["per"]))) if op["per"] else None
            return filters.create_helmholtz_filter(mesh, RADII[op["r"]], P=P, solver_options=options(fe, op["opt"]))
        if k == "dens":
            if op["one"]:
                return lambda rho: filters.density_filter(rho, mesh, RADII[op["r"]], op["wt"])
            return filters.create_density_filter(mesh, RADII[op["r"]], op["wt"])
        p = prob()
        if k == "comp":
            return responses.create_compliance_fn(p, op["load"])
        if k == "dyn":
            f = responses.create_dynamic_compliance_fn(p)
            xs = [np.asarray(q) for q in p.physical_surface_quad_points]
            return lambda z: f(z[:-2], [(z[-2 + s] * jnp.asarray(1 + x[..., 0] - 0.5 * x[..., 1]),) for s, x in enumerate(xs)])
        return responses.create_volume_fn(p)

    @staticmethod
    def design(mk, s, at):
        """Exactly summable values; designs s and s + 5 hold the same values in other places."""
        z = Functions.design0(mk, s % 5, at)
        return np.roll(np.round(z * 1024) / 1024, s // 5, axis=0)

    @staticmethod
    def design0(mk, s, at):
        G = geo(mk["mesh"])
        r = np.random.RandomState(s + 11)
        k = mk["k"]
        if k == "hom":
            return r.uniform(0.5, 2.0, G.N if at == "node" else G.C)
        if k in ("helm", "dens"):
            return r.uniform(0.0, 1.0, G.N)
        if k == "comp":
            return r.uniform(-1, 1, 2 * G.N)
        if k == "dyn":
            return r.uniform(-1, 1, 2 * G.N + 2)
        return r.uniform(0, 1, dict(node=G.N, cell=G.C, quad=(G.C, 4))[at])

    @staticmethod
    def reference(mk, z):
        k, key = mk["k"], mk["mesh"]
        if k == "hom":
            C, u = hom_ref(key, z)
            um = np.array([(geo(key).pts @ e.T).ravel() for e in STRAINS])
            return np.concatenate([C.ravel(), u.ravel(), um.ravel()])
        if k == "helm":
            return helm_ref(key, RADII[mk["r"]], mk["per"], z)
        if k == "dens":
            return dens_ref(key, RADII[mk["r"]], mk["wt"], z)
        if k == "comp":
            ld = mk["load"]
            return np.array(comp_ref(key, z, lambda s, x: 1.0 if ld is None else ld[s] if isinstance(ld, list) else ld))
        if k == "dyn":
            return np.array(comp_ref(key, z[:-2], lambda s, x: z[-2 + s] * (1 + x[..., 0] - 0.5 * x[..., 1])))
        return np.array(vol_ref(key, z))

    @staticmethod
    def weights(mk, s, n):
        w = np.random.RandomState(s + 91).uniform(-1, 1, n)
        if mk["k"] == "hom":
            w[9:] = 0.0                                       # displacements are defined up to a translation
        return w

    def settle(self, mk, y):
        """Remove the free translation of a homogenization's displacements."""
        y = np.array(y)
        if mk["k"] == "hom":
            n = geo(mk["mesh"]).N
            u = y[9:9 + 6 * n].reshape(3, n, 2)
            um = y[9 + 6 * n:].reshape(3, n, 2)
            y[9:9 + 6 * n] = (u - (u - um).mean(1, keepdims=True)).ravel()
        return y

    def call(self, fn, cache, mk, op, z):
        import jax.numpy as jnp
        jax = self.jax
        m = op["mode"]
        if op["buf"]:                                         # the caller's own array, overwritten between calls
            b = cache.setdefault(("buf", z.shape), np.array(z))
            b[...] = z
            arg = b if m in ("jit", "jitgrad") else jnp.array(b)
        else:
            arg = jnp.asarray(z)
        if m == "eager":
            return np.asarray(fn(arg))
        if m == "jit":
            f = cache.setdefault("jit", jax.jit(fn))
            return np.asarray(f(arg))
        if m == "vmap":
            f = cache.setdefault("vmap", jax.jit(jax.vmap(fn)))
            zz = np.stack([z, self.design(mk, op["s"] + 1, op["at"]), z])
            return np.asarray(f(jnp.asarray(zz)))
        w = jnp.asarray(self.weights(mk, op["s"], self.out_size(mk)))
        loss = lambda a, w: jnp.sum(w * jnp.ravel(fn(a)))  # noqa
        g = cache.setdefault("grad", jax.grad(loss))
        if m == "jitgrad":
            g = cache.setdefault("jitgrad", jax.jit(jax.grad(loss)))
        return np.asarray(g(arg, w))

    @staticmethod
    def out_size(mk):
        n = geo(mk["mesh"]).N
        return 9 + 12 * n if mk["k"] == "hom" else n if mk["k"] in ("helm", "dens") else 1

    def execute(self, plan, res):
        live, worlds, used = [], {}, set()
        for n, op in enumerate(plan["ops"]):
            res.steps += 1
            fault = op.get("fault")
            HOOK["left"] = fault[1] if fault and fault[0] == "abort" else 0
            ds.BACKEND.arm({fault[1]: "before"} if fault and fault[0] == "call" else {}, None)
            if op["op"] == "drop":
                if live:
                    live[op["h"] % len(live)] = None
                    for k in list(worlds):
                        if not any(v and v[0]["mesh"] == k for v in live):
                            del worlds[k]
                    gc.collect()
                continue
            if op["op"] == "make":
                try:
                    fn = self.build(op, worlds)
                except Exception as e:
                    if not fault:
                        raise Violation("create-failed", f"op {n} {op}: {type(e).__name__}: {str(e)[:200]}")
                    res.faults["user-code"] += 1
                    HOOK["left"] = 0
                    fn = self.build(op, worlds)
                HOOK["left"] = 0
                live.append((op, fn, {}))
                res.probes["make-" + op["k"]] += 1
                continue
            if not live:
                continue
            h = op["h"] % len(live)
            if live[h] is None:
                continue
            mk, fn, cache = live[h]
            if mk["k"] == "hom" and op["mode"] == "vmap":
                continue
            z = self.design(mk, op["s"], op["at"])
            if fault and fault[0] == "nan":
                z = z.copy()
                z.flat[1] = np.nan
            elif fault and fault[0] == "shape":
                z = np.ravel(z)[:-1]
            what = f"op {n} {mk['k']} on {mk['mesh']} ({op['mode']}, design {op['s']}/{op['at']}, {len(live)} functions)"
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    y = self.call(fn, cache, mk, op, z)
            except Exception as e:
                if fault and fault[0] == "call" and not ds.BACKEND.fired:
                    fault = None
                if not fault or fault[0] == "abort" and HOOK["left"]:
                    raise Violation("call-failed", f"{what}: {type(e).__name__}: {str(e)[:300]}")
                res.faults["backend" if fault[0] == "call" else "user-code" if fault[0] == "abort" else "bad-design"] += 1
                res.nontrivial = True
                res.ev(n, "raised", type(e).__name__)
                res.states.add(repr((mk["k"], mk["mesh"], mk.get("opt"), op["mode"], fault[0], "raised")))
                continue
            finally:
                HOOK["left"] = 0
                fired = len(ds.BACKEND.fired)
                ds.BACKEND.disarm()
            if fault and fault[0] in ("nan", "shape"):
                res.faults["bad-design"] += 1
                res.nontrivial = True
                continue
            if fired and not np.isfinite(y).all():
                res.faults["backend"] += 1
                continue
            self.judge(what, mk, op, z, y)
            used.add(h)
            res.sim_time += 1
            res.probes[f"{mk['k']}:{op['mode']}"] += 1
            res.states.add(repr((mk["k"], mk["mesh"], mk.get("opt"), op["mode"], fired, len(live))))
            res.ev(n, mk["k"], op["mode"], float(f"{np.abs(y).sum():.4e}"))
            if len(used) > 1:
                res.nontrivial = True

    def judge(self, what, mk, op, z, y):
        m = op["mode"]
        if m in ("grad", "jitgrad"):
            w = self.weights(mk, op["s"], self.out_size(mk))
            want = np.zeros(z.size)
            for i in range(z.size):
                zc = z.astype(complex)
                zc.flat[i] += 1j * H
                want[i] = (w * np.ravel(self.reference(mk, zc))).sum().imag / H
            want = want.reshape(z.shape)
            tol = 2e-5 if mk["k"] == "hom" else 1e-6
            kind = "wrong-gradient"
        elif m == "vmap":
            z2 = self.design(mk, op["s"] + 1, op["at"])
            want = np.stack([self.reference(mk, z), self.reference(mk, z2), self.reference(mk, z)])
            tol, kind = 1e-6, "wrong-value"
        else:
            want, y = self.reference(mk, z), self.settle(mk, y)
            tol, kind = 1e-6, "wrong-value"
        if y.shape != want.shape:
            raise Violation("wrong-shape", f"{what}: {y.shape}, expected {want.shape}")
        e = np.abs(y - want).max()
        if not e <= tol * (1e-6 + np.abs(want).max()):
            raise Violation(kind, f"{what}: off by {e:.2e} (scale {np.abs(want).max():.2e})")


SCENARIOS = [Functions()]
